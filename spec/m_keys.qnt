// -*- mode: Bluespec; -*-
// C02, C12: public keys.
module m_keys {
  import cases.* from "./cases"
  var last: List[Call]
  action init = last' = []
  action step = {
    nondet kc = 0.to(NKEY - 1).oneOf()
    nondet ki = 0.to(9999).oneOf()
    nondet kr = 0.to(R57).oneOf()
    any {
      last' = scDerive(mkKey(kc, ki, kr)),
      last' = scDerive(mkKey(kc, ki, kr)),
      nondet noise = 0.to(R57).oneOf()
      last' = scClamp(mkKey(kc, ki, kr), noise)
    }
  }
  // the outputs are encodings of points of the prime-order subgroup
  val inv = last.length() == 0 or {
    val d = decode(last[0].out.data.v)
    d.ok and onCurve(d.pt)
  }
}
