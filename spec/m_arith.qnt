// -*- mode: Bluespec; -*-
// C14: field and scalar arithmetic.
module m_arith {
  import arith.* from "./arith"
  import api.* from "./api"
  import pools.* from "./pools"
  import ed448.* from "./ed448"
  var last: List[Call]
  action init = last' = []
  action step = {
    nondet k = 0.to(31).oneOf()
    nondet c = 0.to(59).oneOf()
    nondet i = 0.to(99999).oneOf()
    nondet r = 0.to(R57).oneOf()
    nondet c2 = 0.to(59).oneOf()
    nondet i2 = 0.to(99999).oneOf()
    nondet r2 = 0.to(R57).oneOf()
    last' = if (k < 22) fieldCase(k % 11, mkF(c % NF, i, r), mkF(c2 % NF, i2, r2), i / 7, r2)
      else if (k < 31) {
        val x = mkSc(c % NSC, i, r)
        val y = mkSc(c2 % NSC, i2, r2)
        scalarCase(k % NSK, x, if (i2 % 3 == 0) relScalar((i2 / 3) % NRELS, x, y) else y, i, r, r2)
      }
      else fieldCase(11, mkF(c % NF, i, r), mkF(0, 0, 0), i, r2)
  }
  // a scalar outcome is the canonical representative of its class
  val inv = last.indices().forall(j =>
    last[j].out.tag == "scalar" implies (last[j].out.data.v < L and scalarMatches(last[j].out.data, last[j].out.data)))
}
