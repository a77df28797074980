// -*- mode: Bluespec; -*-
// C13, C14: every recoding of a scalar has the scalar's value and the shape the multiplication
// loops rely on: digits within the tables, enough room, a positive first digit.
module m_recode {
  import arith.* from "./arith"
  import api.* from "./api"
  import pools.* from "./pools"
  import ed448.* from "./ed448"
  import recode.* from "./recode"
  var last: List[Call]
  var k: int
  action init = all { last' = [], k' = 0 }
  // chunks of 16 bits that carry, or nearly do
  pure def carrying(i: int, r: int): int =
    range(0, 28).foldl({ v: 0, r: r, w: 1 }, (s, j) => {
      val c = s.r % 8
      { v: s.v + s.w * (if (c == 0) 65535 else if (c == 1) 65535 - (s.r / 8) % 64 else if (c == 2) 0 else if (c == 3) (s.r / 8) % 64
          else if (c == 4) 32768 + (s.r / 8) % 64 else if (c == 5) 32767 - (s.r / 8) % 64 else if (c == 6) 2^(i % 16)
          else (s.r / 8) % 65536), r: s.r / 2^16 + i, w: s.w * 65536 }
    }).v % L
  action step = {
    nondet c = 0.to(59).oneOf()
    nondet i = 0.to(99999).oneOf()
    nondet r = 0.to(R57).oneOf()
    val x = if (c % 2 == 0) carrying(i, r) else mkSc((c / 2) % NSC, i, r)
    all {
      k' = x,
      last' = [oc("wnaf", [w56(x)], [3], oTag("true")), oc("wnaf", [w56(x)], [5], oTag("true"))],
    }
  }
  pure def fits(x: int, tb: int): bool = {
    val ds = wnaf(x, tb, 28)
    valueOf(ds) == x and proper(ds, tb) and ds.length() < room(446, tb)
  }
  val inv = and {
    fits(k, 3), fits(k, 5),
    windows(k, L, 5, 90).foldl(0, (s, d) => (32 * s + d + L) % L) == k,
    (combValue(k, L, 5, 5, 18) + L * 2^20) % L == k,
  }
}
