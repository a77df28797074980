// -*- mode: Bluespec; -*-
// C13: point arithmetic on decoded points.
module m_group {
  import arith.* from "./arith"
  import api.* from "./api"
  import pools.* from "./pools"
  import ed448.* from "./ed448"
  var last: List[Call]
  pure val TINY: List[int] = [0, 0, 0, 1, 2, 3, 4, 5, 16, 32, L - 1, L - 2]
  action init = last' = []
  action step = {
    nondet k = 0.to(5).oneOf()
    nondet i = 0.to(99999).oneOf()
    nondet r = 0.to(R57).oneOf()
    nondet c = 0.to(NPT - 1).oneOf()
    nondet good = 0.to(4).oneOf()
    nondet cs = 0.to(NSC - 1).oneOf()
    nondet is = 0.to(99999).oneOf()
    nondet rs = 0.to(R57).oneOf()
    nondet ct = 0.to(NSC - 1).oneOf()
    nondet it = 0.to(99999).oneOf()
    nondet rt = 0.to(R57).oneOf()
    val e = if (good > 0) mkPoint(pick([10, 12], if (good > 1) 0 else 1), i, r) else mkPoint(c, i, r)
    val e2 = if (i % 3 == 0) e else if (i % 3 == 1 and decode(e.v).ok) encPt(padd(decode(e.v).pt, torsion(it))) else mkPoint(10, it, rt)
    // one in six: both scalars small
    last' = if (is % 6 == 0) pointCase(k % 5, e, e2, pick(TINY, is / 6), pick(TINY, it / 6))
      else pointCase(k % 5, e, e2, mkSc(cs, is, rs), mkSc(ct, it, rt))
  }
  val inv = true
}
