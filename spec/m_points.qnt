// -*- mode: Bluespec; -*-
// C13: arithmetic of the points the API hands out.
module m_points {
  import bytes.* from "./bytes"
  import cases.* from "./cases"
  var last: List[Call]
  action init = last' = []
  pure val EDGE_S: List[int] = [0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, L - 1, L - 2, L - 3, L - 4, (L + 1) / 2,
    (L - 1) / 2, (L + 1) / 4, 2^445, 2^445 - 1, 2^32 - 1, 2^32, 2^224, 2^224 - 1, 2^16 - 1, 2^16, 65537, 2^31]
  pure def mkS(c: int, i: int, r: int): Bytes =
    bstr(56, if (c == 0) r % L
      else if (c == 1) pick(EDGE_S, i)
      else if (c == 2) 2^(i % 446) % L
      else if (c == 3) L - 1 - 2^(i % 445)
      else if (c == 4) (2^(i % 446) - 1) % L
      // words all zero or all one, 16-bit pieces (the recodings work on these)
      else if (c == 5) range(0, 28).foldl({ v: 0, r: r }, (s, j) =>
        { v: s.v + 2^(16 * j) * pick([0, 65535, 1, 32768], s.r % 4), r: s.r / 4 }).v % 2^445
      else if (c == 6) range(0, 89).foldl({ v: 0, r: r }, (s, j) =>
        { v: s.v + 32^j * pick([0, 31, 1, 16], s.r % 4), r: s.r / 4 }).v % 2^445
      else if (c == 7) denseScalar(i, r)
      else if (c == 8) L - 1 - denseScalar(i, r)
      else r % 2^(1 + i % 445))
  pure val NS: int = 10
  action step = {
    nondet kc = 0.to(NKEY - 1).oneOf()
    nondet ki = 0.to(9999).oneOf()
    nondet kr = 0.to(R57).oneOf()
    nondet c = 0.to(NS - 1).oneOf()
    nondet i = 0.to(9999).oneOf()
    nondet r = 0.to(R57).oneOf()
    nondet c2 = 0.to(NS - 1).oneOf()
    nondet i2 = 0.to(9999).oneOf()
    nondet r2 = 0.to(R57).oneOf()
    val key = mkKey(kc, ki, kr)
    val s = mkS(c, i, r)
    val s2 = mkS(c2, i2, r2)
    any {
      last' = [call("pt_encode", [key]), callAs("pt_on_curve", [key, s], oTag("true"))],
      last' = [call("pt_mul", [key, s])],
      last' = [call("pt_mul", [key, s])],
      last' = [call("pt_dmul", [key, s, s2])],
      last' = [call("pt_dmul", [key, s, s2]), callAs("pt_dmul_on_curve", [key, s, s2], oTag("true"))],
      // both small, equal, or cancelling: 4 a + b d = 0, or nearly
      last' = {
        val b = if (i % 5 < 4) bstr(56, pick([0, 0, 1, 2, 3, 4, 5, 8, 16, 32, 64, L - 1, L - 2, L - 4, L - 16], i / 5)) else s2
        val a = if (i2 % 4 == 0) bstr(56, pick([0, 0, 1, 2, 3, 4, 8, L - 1, L - 4], i2 / 4))
          else if (i2 % 4 == 1) b
          else bstr(56, ((L - (b.v * dlogOf(key)) % L) * QUARTER_INV + (if (i2 % 4 == 2) 0 else 1 + i2 / 4 % 3)) % L)
        [call("pt_dmul", [key, a, b]), callAs("pt_dmul_on_curve", [key, a, b], oTag("true")),
         call("pt_mul", [key, b]), callAs("pt_on_curve", [key, a], oTag("true"))]
      },
      last' = [call("pt_equal", [key, s, key, s2]), callAs("pt_equal", [key, s, key, s], oTag("true"))],
      // a (b P) = b (a P), written as equality of two multiples
      last' = {
        val key2 = bstr(57, r2)
        val t = bstr(56, (dlogOf(key) * s.v) % L)
        val one = keyOfScalar(4 * L + 4, 0)  // the point 4B
        [ call("pt_equal", [key, s, key2, s2]),
          call("pt_equal", [one, bstr(56, (t.v * ((3 * L + 1) / 2 % L)) % L), key, s]),
          callAs("pt_equal", [one, bstr(56, (t.v * QUARTER_INV) % L), key, s], oTag("true")) ]
      },
    }
  }
  // 1/4 mod L
  pure val QUARTER_INV: int = QUARTER % L
  val inv = true
}
