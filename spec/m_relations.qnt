// -*- mode: Bluespec; -*-
// C12: how the kinds of key and the signing entry points relate.
module m_relations {
  import cases.* from "./cases"
  var last: List[Call]
  action init = last' = []
  action step = {
    nondet kc = 0.to(NKEY - 1).oneOf()
    nondet ki = 0.to(9999).oneOf()
    nondet kr = 0.to(R57).oneOf()
    nondet mc = 0.to(NMSG - 1).oneOf()
    nondet mi = 0.to(9999).oneOf()
    nondet mr = 0.to(R57).oneOf()
    any {
      last' = scSignRelations(mkKey(kc, ki, kr), mkMsg(mc, mi, mr)),
      last' = scClamp(mkKey(kc, ki, kr), mr),
      // the clamped bits do not change signatures either
      last' = {
        val k1 = bstr(57, mkKey(kc, ki, kr).v % 2^455 + 2^455)
        val k2 = bstr(57, clamp(k1.v) + mr % 4 + 2^448 * ((mr / 4) % 128) + 2^455)
        val m = mkMsg(mc, mi, mr)
        val o = oBytes(sign(k1, m))
        [ callAs("sign", [k1, m], o), callAs("sign", [k2, m], o) ]
      },
    }
  }
  val inv = last.length() == 0 or last[0].out.tag == "bytes"
}
