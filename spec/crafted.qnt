// -*- mode: Bluespec; -*-
// y-coordinates of no curve point for which the twisted-curve equation the library
// tests (is_on_curve) fails by k * 2^(28 j) only, i.e. in a single 28-bit limb or in
// the limbs a borrow reaches: every limb of the field comparison is needed to reject
// them.  Found by solving for y; the specification rejects them all (no square root).
module crafted {
  pure val NEAR_MISS_Y: List[int] = [
    383229081635562120314767240099011733186421795215670148146684285469074059183926310342464423009360662950720785868981065446296772003359623,
    232142893001673544593616364770255874642222421146437705040979336282390869070930266078258324957316004886019727473593435940415154370385100,
    418077736509083421571164117924205955550533696406483879536799190070600645154683687029082787291542682171676474511995896883046816643332235,
    216404608476499413454236444249286684447020119633480498594053299206136386962882342473506449970099203821022436179319144802828084900089790,
    556194326606930286158886383289442524828593737304190658613029066543160896352678497969658474424454758279692346297022633914467102371056171,
    582820212151737930881209034794754279438796683674485859044042122447153545728402329326972064050528981743436505486612766768320776634398938,
    346370807662817944925085664573325251905870549033436342307202120544566582449515913451871224010336174157854228433179749880309373872398606,
    69287678996778992620463873929471587951126301497297820264851905179676517476849327980181481237568408123220665073534899240214604710595103,
    344104671277147908238456522386438144677189057577698032540894058542974147277201999594477760669689602014923775083509103265885839141972086,
    119536323351014897440462704389808387191898814053628480067850015782893141880303810747844602660876570396993499904925948880228535946954424,
    519518774849588508891991057744841271150238527630294317136990311632546668252670394893700400738491121343491199711932689838788410300528140,
    179006731955404128760036307075056658550804167206503566613856091390928702045032394637556851138541011771938542138569471716453200685966612,
    118416219556383310317798155079848400386666955342217377701164805045743089354757287637935293377170370059632391739531158116159271906918809,
    640493970002009642760792288036833065102208218602564267417243688245714370121100018818832664739163379201173451402626997064356679747123345,
    231945925177768123821008186091104917294844345999428290832495913381806647954504553100008072205375208469236831101191371682932672788572444,
    161595505617296102207300489814128822400056582546099909493313052707114735280389070794538408907673306843283672115257596331527025221716272,
    322753245354496335660387657815961335066209184954823637749593361992046494722036405885155050711828828481394305421314800199647529837383807,
    90612248448306441413681414256233329133427033023731762139820161462300474755314057836557354972300004771940714529880019866403341783906724,
    332918089969110105500330479075795557133261209495488237444198036162982627976996355355987702376669624758345867115853315920611322265360085,
    697092329505304251355042154801649600541047111403269477220815509157576184119964712692437134877516718452037602896911410087593205366767790,
    143189956836813727722320996658000730208025660161926368540403188818330940350896411083869025892095473015004350113132568782903107015198008,
    502541489847290396737230446895350714812280324549774745917906638333469429904392933436701561954803596487532998856228577333563685080372441,
    210233659968056015764627638344938303412898729515171087180212575590819293202291001435302157560007569575264939168021095287667615725835436,
    285363624977280066064498819162758550210481456190278547712659620765283254569288627284291350911662879177731542013532193855636323900143513,
    320169751620324086285088368461400057140033545192029998764327706813256631999272315058148105044770870933920307541962692434071388084742129,
    36597622174554213389739691543323372379380546435479101373394331208247301996269063818604487028913000295133846302159369616321404554902121,
    661044552412796418057965739620200745540208016868295656561609488959361380741947931259322656477175626583821099705574138545626390676813816,
    127853873509345803421150444812601796080210959142200278668053335955718177783780544717505086220825636160944679885052515955705932430625837,
    715807925070945560367136789516505723168937745556657106235383145660223824087865901880612454570977078848231481462478623656317026408597300,
    161976885482781063750091479032371105573916564822470377346855726568448531603707482388708702481008372596393384587483382578243799124457248,
    368503122223699621816239195342957742000131000265580530095166790972615129961476740553207352357066726966027141871846148321835426155216079,
    232233060291484316899009099144817474958302418777816636245952839148087509940874896639567976417810074293015691580819641634647867168670238,
    621253368991524713363941604209765544867425171871378869839596226100982545051758426283543696794060107168696543062972086115013286327852726,
    375135388755210944460930184594762834744181795464176566815648659728161633056356263892060348664698958366872750566423952724904432977742136,
    125040102119716089713881794378290442877920487131419479544373182710314730511101197997118889989444327332524926072902367394122652854017320,
    242591714866776071181450568573848649905483290893787475852788420832500113618585693963294822433005357488075487343454540080825710172537644,
    394465231376470568502837981805381716320552032208693806703272257942528670873489158628266949880561674821712461552790993720556572427557063,
    94556158925182632815567515154321489062416169885578150887637654721447228631137141733980274917325534440708781714065456570708235079749917,
    473344941371100820792431268476037022930501641822672617474057320460156496160029252467724869138124881261900881146413457219903206044134036,
    60542391025838798586035669027605439894623595289031457295793319499940447457323160484266197512676363628559430395488676217243568347453247,
    681470665762561571364019503901001636035430254727391039652786644246284249804714907635175987640637089464165656313463529039423274405197277,
    573393582670479328750154025138550898476834042813924992763494997850976635424695292773970858431900152084920002683919949594493654177504731,
    675675118787016315256869470736756305896396696854229163505102072571851023033255901004164832581178182873219220289148766063735390883046945,
    303137572498068726432399557225203530860371243096376174426485425342990913528440032385737062761891086948192240916391174223798156820519522,
    474567926532083709263445008215528857715889352288775084549923954344886496220248833485029223021857902598080488015813057244228028557120511,
    720483242689583969895965833523248783931795274050758725190143399553228474858803889417365357246496175106090115633161985475840142523247931,
    167554265596987951086278586383635294523703356625924160059264430830909914277449562160500922219616318916650589526029990061688093920486050,
    447702659548505858333486009959633966292265975797686467116633540655430708925697342578542980824860424312521810181040608524461836417889924,
    587181542024893231149269187823740568286099266040660653930007975611794741721890966593302496488254617671146261946767424517841433324400404,
    313481404520673066003931163980112944209189306379518608241301180854723930879800464927298887659857407999197875024722799646477561449223126,
    162201561701939205900117019301944906302582429049802135650882589404016558820561412120766898711419538545558402733997165630022325254043373,
    183082488777378582998272116860877128064479720557521258236614580467470992671945240998061159481098577335082538196666962130149138511756316,
    601109798199351010763308582045619147264649324750360511652300978219969864969192977153247177999182410914494560058087560578163416301915931,
    456476221581984679219727257131226569771718700951155895267011317638970562102364416800756608898571784920952143380586020794755511308680420,
    660053089969629904584126699653573902950681785094427881704812427475095232978355655412593712034379027911802912054412744426796733002463739,
    106797857425198891807037556187152428148783381644564948646636070909617737866771366548178416185509105073236226789021046766995257550855383,
    307439627344231631832936421049159870851220060285076157403024888815228787754496038838175064441789145155029755098283982551791788783118398,
    63904315068509868916907127735411620679731858806075679814893804301548540489990475628954173322114749257749731465837387925890277496530827,
    636318473071696947877310893448058649622006274072039356214764143733750220018161694798139672817898130983674811527085381548163120087905116
  ]

  // Seeds (as 57-byte little-endian integers) and four-byte messages for which a quantity
  // of the signature (A, s, R, S, r, k, or the hash one of them comes from) is extreme:
  // 20 to 24 leading or trailing zeros or ones, a run of zeros or ones that long, a limb
  // or word of 28, 32 or 16 bits nearly all zeros or ones.  The most extreme of twenty
  // million signatures; what they are is for the specification to say.
  pure val RARE: List[{ key: int, m: int }] = [
    { key: 66382938476672695535849887686431477765361250050998767694665810082155709886795599073982457744189063776879984668093826423992629168143652401, m: 3564276740 },
    { key: 1306782776317133703408470885069876243775790854117113714273177729911726513488335470824021605473732948326081889408098894516037147907433655, m: 1039113845 },
    { key: 89928606359340358937185176414558531208891307562153945400645803621961167508876474085459833338705602671160130701250835256657635473245173044, m: 248135225 },
    { key: 72877183340007034611197512483806888811085775865315884121396488963606610446259029380765572870772132221741970613452927041717974213227491576, m: 3601622451 },
    { key: 32853316470171594713205390060986551003024384777998742543266348961324616655832748197419816734853647607424100656212818173433925305730265237, m: 1262001669 },
    { key: 36794675894395010694152458645314345383122734642809121914646073330936486202950979457091071503549450794997642490698873319956220951008210881, m: 1225347461 },
    { key: 5344245422810198314560116156503615207143525005402636777226633380203995325961919535356831389459275097268203080031720000732032209707207124, m: 4243400931 },
    { key: 90279920762171876971175656968428244250190060029567236558549976604170941897511586338748594857937918279069793938441842103127408319116905974, m: 3743287074 },
    { key: 37870642090632779100542149022940628970241062445347375932959331752151791990245102302225337078939526018747580604463050829470257802532484228, m: 3739656966 },
    { key: 64934910640633817877072380086047670117599109121120001576232741253249692151326095268861537662083100245408691408847131027930193289021269018, m: 318186585 },
    { key: 53237296916293817430105914661614621684465777534915343083216343151231052554751522752358661413380208625165274707591418292293789098226635910, m: 817157691 },
    { key: 4189930227202559847491581695077601680123298619723807815527468876556519042234604626550783239952416131510156951890633017730768299994653376, m: 1720441556 },
    { key: 69860329709822208630577404856052621074967366192035108654520104579185706709343278005229732071622174724058338181797351540538661397569131388, m: 1176851166 },
    { key: 6001118077330154501778268558963079935198885836247109447484602921022905276261063203368725002006160467729641716209912731909607657316385827, m: 1196261446 },
    { key: 89121520904747730093041773125983053711521226968989960977541547888259242965835929275696928455527440420064818877924411530890274415564322468, m: 3527529299 },
    { key: 19494793414870819170176196804354735685284210504690098248591429735960480182962918293836357348444574007920649416867780072388729451656119390, m: 2870337390 },
    { key: 26885223656529952551488107551468658369497751159183574747019824103915777766408781518624331707758215118938006922091252782299406561861845566, m: 3902905926 },
    { key: 64685549899367313933425596852619174039239968858085549793359466686730512721877680554474326208671477943773785422993047056397868162212417244, m: 1041552090 },
    { key: 57953882553772483130605183520559749217263302486582233866333300637855640995655203125105666098829761995300160269407869823746823999542273645, m: 1200010013 },
    { key: 44987622625048161909148729550711651137522704914476734435019182945910589682774121506069419282918717360560069831375143176036912091051947152, m: 1847468777 },
    { key: 46671906827031485238140453266293510701496466600916018375589527228551479530565090388048175926066934885282011996208764413858144422606447911, m: 1766075807 },
    { key: 71893255644542907437706362994625233128402807364527050389279331837411338314768023998265858269659278822668963937709040836940639261780027224, m: 113035775 },
    { key: 30045898405101612192655929470269101147243221605775708223864347537990611973960870326460875271589956587666077022510634175523822488376740910, m: 2264455329 },
    { key: 61397491651264374444132316126461990131827536575694279997375762860398631890123904264880169775579560437207772016339494862919850376870458895, m: 2415743119 },
    { key: 28179168007989384429457663390280586080862761975175439471737644536715247675318381123839090251777187617500851873063507960200170787421897584, m: 4034486489 },
    { key: 42215185961699491995738769207446527517832393225678056821540166472715752964570250457310800742614306326044620645470517850743655286382427060, m: 663908057 },
    { key: 83009584428628186522655282079844064042291470030251818491413300537262059358537308579397860642847562487898520033366476365882241204378085869, m: 3965500798 },
    { key: 38022881732972402623196155425919021481862866131770535895278654686696918995717958914399718940461769797241892457013485146321604232428476630, m: 3217379405 },
    { key: 40255399457740903066549463239937215796708215593189115249587591212287301005892816121869325009456724469122463860313022263559217898437164581, m: 769869711 },
    { key: 32214649390890182238584381150455937386874861961571210910877380391698708818366484715871885166000188029372735655617697163027571446822337587, m: 380866582 },
    { key: 29772441063480528694620960169633890958511951211350890734736334677185380598717896595374390403266930371527858970681408512467060033633807408, m: 738019796 },
    { key: 10809973118071596044428446587289571966518127066838937282270343020667842564994029198968561168909468426036567906280466275154468892600302617, m: 1203808691 },
    { key: 1122516393157149096470058510787322114319853878643269868677142818682733877273169724542976519177717886638343893180095676408834146266067989, m: 2989433419 },
    { key: 2992091142140423043472913992562341906023451534163767435478450737839476494609412297051084696086238395663607840394058359054757061215295881, m: 3203047669 },
    { key: 19928713781658585671365390364424121197458494785297083324149758200284331090813038107786075325953715880732878851412515762335177230659980717, m: 700497349 },
    { key: 91214420526372465492005306175660131820145594920813571250419163559193069947690883113354293786902106143594239113175590020293909529791318317, m: 928505075 },
    { key: 20647821992237190347593246586880140043970222659276142708648802637556981973866857725742449074482046240869660984207147495411450083802514388, m: 1412320085 },
    { key: 70554912821857475679507349754117859748564527634427937122687963276927603788318997916279854044653709213723352471890983084129835513046345475, m: 3155801310 },
    { key: 46143081125407449365120292693969942283030807368307797478283145669579871500053711312767627614629819319562398781189339375197902667963940122, m: 736695827 },
    { key: 2267943212829806157990808600671542733915728971887883897051229875710655212233908427783061459843539208376102354916462162404424156855545744, m: 2043319232 },
    { key: 36636228702256061861746503329431833407972552487674058678664279514365384852476927314490551842082445733939694868970381969206252725166403869, m: 147240547 },
    { key: 19300118229725078739476401064596374891474565982705877588682770548972904236154090457315554144140390575919066480959560692315063582345740558, m: 3543763931 },
    { key: 38026234968509036778574381304371123475730367728152899700387102793817697749604764872537606835797640266535606759364794946495083575522048683, m: 692663452 },
    { key: 70436921184652758433867642062528712311449708811753316546118811556938263765983540023516030731785254019050531320473276156597462171558707158, m: 2537273598 },
    { key: 32676833995302077448186265339832074443739582724543526214401862342282680639319256913657714565017355982978370358226118912203053963896372239, m: 3097926535 },
    { key: 16296989247409455007512487243484084730059438806544002902251358523459555550750436971502024370758483934616872977590478738975400011476744348, m: 2809922305 },
    { key: 61011277607194848202220632842079063008386889709733792008055612757124262589126758458590210584770130319362770703751595982414436994581742241, m: 764342185 },
    { key: 25205658597568409181639889862539892587900884973144819814388307781347220635382499779825014075851831682314017517673288945456378864734907878, m: 2587553366 },
    { key: 34629892522902460551626276426416412492959863797067526439635315008790838292174795716599247889722030235282217731982958888227251140451206189, m: 1690220582 },
    { key: 45023426857967978305490897548200358115096488596620075247443600671455243895831151441422679679659735661688984614982486009821109392440991298, m: 1579766157 },
    { key: 40411451904594899032048694920335956393007415390979409847755601561659046757115580260033402259516732487209585571322254044003580783642385560, m: 3035198710 },
    { key: 50998671803579275948483942174707549498569529457182163999850025414748727566852928629594869049373612656893839479854922130076835208197307482, m: 802511246 },
    { key: 45203704084368260302772184881522696186204067473163212874883151512989648995833655505852247321559978534215424705426760455655816030824411168, m: 2651595514 },
    { key: 85565729614909761195313831723288044931486219140967463890512478328686257931382172260931416662380119322062937508104483344858535246529820506, m: 581896350 },
    { key: 5783894537240651057025257900976640087412626979722880293902414126480605824071876689592075632156058360970878721528898037358270482861328099, m: 739093968 },
    { key: 25590422410633398667149852602912843792721879651884800294544336407488578030943212213440354363158190042624797847787630374862039758909101501, m: 2713418002 },
    { key: 3512145409200648667453601619124775077852691752457557351720913028890554479580562217143432310025280842365768122005141844720625442932330793, m: 3449758641 },
    { key: 48862243503289533666919973743692933124985933963310402082806789901582622608922146504639186419800593687091254180934331804848454267136067259, m: 1504796224 },
    { key: 54617610631764205377325901545284315043872941365198496330273476873622009110399846028822953697173158001400888460489346421176141080469227887, m: 3096038390 },
    { key: 27920665587340973967725022527370833832563533015786765564241480090574392629070621558138351253539442964883543713236925003797130644360294204, m: 671117098 },
    { key: 29472133482099993077741003972606734269147418628455437230654634590681665205195378467961682107334531854573189295888047166864649356180339839, m: 396488060 },
    { key: 84404927484431681160159999972859051441053187478198659176018294448731982986515663406216545243540987066742373581888520163474058489033508348, m: 1843620411 },
    { key: 28326953267806545304445102414134340509222266459530821684156434678736759640381982482556850820849054662003753121489295770129289625042219179, m: 3272513039 },
    { key: 41372783546966688926196673763385753668275585307601343209621294138529956432633128449156905740200880374662101125642601887942164050022057017, m: 1682926656 },
    { key: 77794231620495734514384372849483710506114827433870099675380049866302669504315411976340841990476142860453993597812858632486938133457584041, m: 243727838 },
    { key: 43180111842606274200647352827347885585135200732660622754798082109763370087003665537003426071021612129035580737621150863514721151651394163, m: 3294021223 },
    { key: 4976151626181738636529062867047336562859281444102068011421997430219496372810754738537922590634418361768905251800266580893535950879072703, m: 2047729666 },
    { key: 58554864815116356701859772037754672120646886139992679518923711663346922190625444112132289920818944773858205299497550780777597542877840231, m: 2040895051 },
    { key: 5559403428276059520229258064757654481020818665196363782248861885903323142353431245807609880111738179886485057974234674314688052351628456, m: 3130050136 },
    { key: 17900742744880317632910562524305904568585626387628285648210506925486945784641427659519151301426773470905348451533700579547626450864632928, m: 29134191 },
    { key: 64272176136698832984501701887935873606076129191219872463110108332245128059509209786560623198601910324389624799741762753699010828329062507, m: 1539389028 },
    { key: 42461910211936251595794146008340758137426163314593416128343385776901456060366148595232061111612906952032219935778283299137764370777272992, m: 2769966624 },
    { key: 10800266568172057091271524599371242237612109118188898727830094563379350732370907956613822520813214527801741229040966140406172784422524168, m: 506176958 },
    { key: 30975413915089677500259275768017964523545745485883810484516071781250225820904374973354269363661018741154164077688541180054816912753759798, m: 3284264709 },
    { key: 66714240792352680206233124958640809502704051066405318698517212202906995170361422709044995295482202654128328978075103304425369309222089252, m: 580065566 },
    { key: 4986301767041283457224869384593282196760637864045644505696587200147383516838796693395543843486383200771572272488376804134755932520364818, m: 3876123579 },
    { key: 34410804662181950078638423207321311126114076915924050725755296157295553907538436632174544454685331001423430293463960775679095797865830103, m: 3516604271 },
    { key: 26468926804553292072507590535368001106619715798522055414249433265144164311557397458168223045595900384087590822896233651727049021186243970, m: 23204877 },
    { key: 78478105689076014380655361140331711446481714486623498652134846653241242556955316452626857695094462990748646846112122310313209750342356451, m: 2931816089 },
    { key: 71093842043371696516779005823197029178386490967431938510860091912683061077807284673607678798025066456166514861282722431747335813388807085, m: 1187537348 },
    { key: 1786570005716120913572714916088925329900536984799156738567664035388108506742931722195539849361823289254295167145016663608883644167166913, m: 254083864 },
    { key: 26186321331996769755000601628319385498868175642765747801616448097508994747307533688285832905842628750288304600491913477003775537636439597, m: 499757161 },
    { key: 49013733216074119381852028173734439091137014006912484154233957879266703450747291511113267345361200212562006678118907809544593883701754862, m: 2785483588 },
    { key: 90182113865690736961710431929792830203241892632032450167351796318607900076686137901543178729644669258588940837405181694277925230527802698, m: 1958671917 },
    { key: 83596630232087764940552964030015232841388718476776615176952963880493459694588424260753954296427942930410207218977356130462442849071310904, m: 3445069577 },
    { key: 76411916781399777483737384263893554542771848829415888466883694780217413742162499200903089035634976079917492638405824944261200323999374596, m: 1972306903 },
    { key: 55470251649013135475611587920774907757560516380216005789205042435578385602442012453721264071547126463525555508048941780802373962442998015, m: 608738182 },
    { key: 7578838237066297616373692340451252036066154080285764821419886984697598611492851796550339191613231514748289373261300596895825414448938369, m: 1768522323 },
    { key: 57178570204091219307714918802230918560676980806477642737264341802278740227606151998861824712862208970772063325857849802588431313028042964, m: 3137520252 },
    { key: 68590804628514188332198053570798121144646686454105706720624082137119343288968862813060625778668167936574509432055299303025967853466175151, m: 3738576839 },
    { key: 79240289780904312206592522545341307962209597099547988777587471611377319448556514282048422855499496534867295719483946616639699502673621568, m: 1011138826 },
    { key: 67535147641965924069011863106603984180930166706525176976373855196199324890714420004314709936969013640844732823220995392521082804936300960, m: 2853170080 },
    { key: 61805375836516190151247004857270805865237747364933084881728266040025868936460581887350552340873620748437916053846296360471464533997661866, m: 2562012062 },
    { key: 46013538233456042459336837790016761706421705985895599672529093141322552109878306578618551119522085219297180269848104218223726748278456124, m: 3994440066 },
    { key: 76836722897616728107722882698404592786687946200373110564199404880739718435716747483453290925438924945160772183156515327739071632437624889, m: 3454350335 },
    { key: 53003249136868237224668569333455029306408787445447699817910705979760401711105444983676173243000853802351689700518835243943982946140030170, m: 2067206592 },
    { key: 26580166189769110703595577144722367796989159234201891703129902339332565389908712935247313898084681038142429840450979992972658025366548668, m: 3428054609 },
    { key: 25322129529740027239822852280746918467487994313453677580605486310853396957382757422312932604011876802942756058141345609469678554537318028, m: 1785452747 },
    { key: 77173840416694213032562226793671231832774011020277519414700883856568993843118978535896786347407232443398119928733866157115285978512726507, m: 2270497624 },
    { key: 76666187160974400219920720106103587105140859436861310205930801189737307053657550238916559322981022070865302665498471538791265355762330835, m: 1540792568 },
  ]
}
