// -*- mode: Bluespec; -*-
// C03: long messages.
module m_sign_long {
  import cases.* from "./cases"
  var last: List[Call]
  action init = last' = []
  action step = {
    nondet kr = 0.to(R57).oneOf()
    nondet mi = 0.to(9999).oneOf()
    nondet d = 0.to(140).oneOf()
    nondet mr = 0.to(R57).oneOf()
    last' = scSignVerify(bstr(57, kr), fill(pick(LONG_LEN, mi) + d, mr))
  }
  val inv = last.length() == 0 or last[2].out.tag == "true"
}
