// -*- mode: Bluespec; -*-
// C15: a generated key is what the random source offers: nothing added, nothing fixed,
// nothing left over from an earlier key.  The environment chooses what the source offers;
// the harness finds out by which bytes it is read.
module m_keygen {
  import cases.* from "./cases"
  // what was offered and what came of it
  var made: List[{ offered: Bytes, key: Bytes }]
  var last: List[Call]
  action init = all { made' = [], last' = [] }

  pure def generated(offered: Bytes): Bytes = offered
  // `how`: 0 the library's own source, 1 and 2 a caller's
  action generate(how: int, offers: List[Bytes]): bool = all {
    made' = offers.foldl(made, (acc, k) => acc.append({ offered: k, key: generated(k) })),
    last' = [{ op: "gen_offered", a: offers, s: [how],
               out: oBytes(offers.foldl(EMPTY, (acc, k) => bcat(acc, generated(k)))) }],
  }
  action step = {
    nondet how = 0.to(2).oneOf()
    nondet c = 0.to(NKEY - 1).oneOf()
    nondet i = 0.to(9999).oneOf()
    nondet r = 0.to(R57).oneOf()
    nondet c2 = 0.to(NKEY - 1).oneOf()
    nondet r2 = 0.to(R57).oneOf()
    any {
      generate(how, [mkKey(c, i, r)]),
      // one after the other
      generate(how, [mkKey(c, i, r), mkKey(c2, i, r2)]),
      generate(how, [mkKey(c2, i, r2), mkKey(c, i, r), mkKey(c2, i / 2, r)]),
      // the source repeats itself
      generate(how, [mkKey(c, i, r), mkKey(c, i, r)]),
    }
  }
  // one to one: keys repeat exactly where the source does
  val inv = made.indices().forall(a => made.indices().forall(b =>
    (made[a].offered == made[b].offered) == (made[a].key == made[b].key)))
    and made.indices().forall(a => made[a].key.n == 57)
}
