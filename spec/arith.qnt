// -*- mode: Bluespec; -*-
// The arithmetic underneath, by value: GF(p) on 16 limbs of radix 2^28 (any
// representative whose limbs are in the range the library's own operations produce),
// integers modulo the group order on 14 words, and points through their encodings.
module arith {
  import ed448.* from "./ed448"
  import api.* from "./api"
  import pools.* from "./pools"

  // ---- representatives ------------------------------------------------------------
  // A field operand is 16 little-endian 32-bit limbs; its value is sum limb_i 2^(28 i).
  pure def limb(b: Bytes, i: int): int = (b.v / 2^(32 * i)) % 2^32
  pure def value(b: Bytes): int =
    range(0, 16).foldl({ acc: 0, v: b.v, w: 1 }, (s, i) =>
      { acc: s.acc + s.w * (s.v % 2^32), v: s.v / 2^32, w: s.w * 2^28 }).acc
  // the canonical limbs of an integer below 2^448
  pure def limbsOf(x: int): Bytes =
    bstr(64, range(0, 16).foldl({ acc: 0, v: x, w: 1 }, (s, i) =>
      { acc: s.acc + s.w * (s.v % 2^28), v: s.v / 2^28, w: s.w * 2^32 }).acc)
  // limb-wise sum: the unreduced additions of the point formulas
  pure def rawAdd(a: Bytes, b: Bytes): Bytes = bstr(64, a.v + b.v)

  // a limb after a weak reduction exceeds 28 bits by a small carry only
  pure val CARRY: int = 14
  pure def mkLimb(d: int, r: int): int =
    if (d == 0) 0 else if (d == 1) 1 else if (d == 2) 2^28 - 1 else if (d == 3) 2^28 - 2 else if (d == 4) 2^28
    else if (d == 5) 2^28 + CARRY else if (d == 6) 2^27 else if (d == 7) 2^28 - 3
    else r % 2^28
  pure def pattern(r: int, kinds: List[int]): Bytes =
    bstr(64, range(0, 16).foldl({ acc: 0, r: r, w: 1 }, (s, i) =>
      { acc: s.acc + s.w * mkLimb(kinds[s.r % kinds.length()], s.r / 16), r: s.r / 2^26, w: s.w * 2^32 }).acc)
  pure val NF: int = 12
  pure def mkF(c: int, i: int, r: int): Bytes =
    if (c == 0) limbsOf(r % P)
    else if (c == 1) pattern(r, [0, 1, 2, 3, 4, 5, 6, 8])
    else if (c == 2) pattern(r, [2, 2, 2, 3, 7, 0])
    else if (c == 3) pattern(r, [2, 4, 5])
    else if (c == 4) pattern(r, [0, 0, 0, 1, 8])
    else if (c == 5) bstr(64, ((2^512 - 1) / (2^32 - 1)) * mkLimb(i % 9, r))     // all limbs equal
    else if (c == 6) limbsOf((P + (i % 41) - 20) % 2^448)                        // around p
    else if (c == 7) limbsOf(P + r % 2^224)                                      // p .. 2^448
    else if (c == 8) limbsOf((2^(28 * (i % 16)) * (1 + (i / 16) % 3) + P - (i / 48) % 3) % P)
    else if (c == 9) limbsOf((P - 2^(28 * (i % 16)) * (1 + (i / 16) % 3) + (i / 48) % 3) % P)
    else if (c == 10) limbsOf(pick([0, 1, 2, P - 1, P - 2, P, P + 1, 2^448 - 1, 2^224, 2^224 - 1, 2^224 + 1, P - 2^224, (P - 1) / 2, (P + 1) / 2, 39081, P - 39081], i))
    // one limb of a pattern moved by a carry: a second representative of nearby values
    else { val x = pattern(r, [1, 2, 4, 6, 8])
           val j = i % 16
           bstr(64, x.v - limb(x, j) * 2^(32 * j) + mkLimb((i / 16) % 9, r) * 2^(32 * j)) }
  // a different representative of the same value where the limbs allow it, or a
  // neighbour that differs in a single limb
  pure def partner(x: Bytes, i: int, r: int): Bytes = {
    val v = value(x)
    val c = i % 5
    if (c == 0) limbsOf(v % P)
    else if (c == 1 and v % P + P < 2^448) limbsOf(v % P + P)
    else if (c == 2) limbsOf((v + 2^(28 * ((i / 5) % 16)) * (1 + r % (2^28 - 1))) % P)
    else if (c == 3) limbsOf((v % P + 2^(28 * ((i / 5) % 16))) % P)
    // carry moved up one limb
    else { val j = (i / 5) % 15
           if (limb(x, j) <= CARRY and limb(x, j + 1) >= 1)
             bstr(64, x.v + 2^28 * 2^(32 * j) - 2^(32 * (j + 1)))
           else x }
  }

  pure def fbytes(x: int): Outcome = oBytes(bstr(56, x % P))
  pure def sbytes(x: int): Outcome = { tag: "scalar", data: bstr(56, x % L) }
  // the library's answer for scalars below L is the representative below L
  pure def scalarMatches(got: Bytes, want: Bytes): bool = got.v == want.v
  pure def fpow(b: int, e: int): int =
    range(0, 448).foldl({ e: e, r: 1, b: b % P }, (s, i) =>
      { e: s.e / 2, r: if (s.e % 2 == 1) (s.r * s.b) % P else s.r, b: (s.b * s.b) % P }).r
  pure def oc(op: str, a: List[Bytes], s: List[int], out: Outcome): Call = { op: op, a: a, s: s, out: out }

  pure def fieldCase(k: int, x: Bytes, y: Bytes, i: int, r: int): List[Call] = {
    val vx = value(x)
    val vy = value(y)
    if (k == 0) [oc("f_mul", [x, y], [], fbytes(vx * vy)), oc("f_mul", [y, x], [], fbytes(vx * vy))]
    else if (k == 1) [oc("f_square", [x], [], fbytes(vx * vx)), oc("f_mul", [x, x], [], fbytes(vx * vx))]
    else if (k == 2) [oc("f_add", [x, y], [], fbytes(vx + vy))]
    else if (k == 3) [oc("f_sub", [x, y], [], fbytes(vx + 4 * P - vy)), oc("f_neg", [x], [], fbytes(4 * P - vx))]
    // operands the point formulas leave unreduced
    else if (k == 4) [oc("f_mul", [rawAdd(x, y), x], [], fbytes((vx + vy) * vx))]
    else if (k == 5) { val z = rawAdd(y, partner(x, i, r))
                       [oc("f_mul", [rawAdd(x, y), z], [], fbytes((vx + vy) * value(z)))] }
    else if (k == 6) [oc("f_square", [rawAdd(x, y)], [], fbytes((vx + vy) * (vx + vy)))]
    else if (k == 7) { val z = rawAdd(x, y)
                       [oc("f_sub_bias", [y, z], [3], fbytes(vy + 4 * P - value(z))),
                        oc("f_sub_bias", [z, x], [4], fbytes(value(z) + 4 * P - vx))] }
    else if (k == 8) [oc("f_mul_const", [x], [39081], fbytes(vx * (P - 39081))),
                      oc("f_mul_const", [x], [78164], fbytes(vx * (P - 78164))),
                      oc("f_mul_word", [x], [39082], fbytes(vx * 39082))]
    else if (k == 9) [oc("f_strong_reduce", [x], [], fbytes(vx)), oc("f_serialize", [x], [], fbytes(vx)),
                      oc("f_parity", [x], [], oBool((vx % P) % 2 == 1))]
    else if (k == 10) { val z = partner(x, i, r)
                        [oc("f_equal", [x, z], [], oBool(vx % P == value(z) % P)),
                         oc("f_equal", [z, x], [], oBool(vx % P == value(z) % P)),
                         oc("f_equal", [x, x], [], oTag("true"))] }
    else [oc("f_invert", [x], [], fbytes(fpow(vx, P - 2))), oc("f_isr_squared", [x], [], fbytes(fpow(vx, (P - 3) / 2)))]
  }
  pure val NFK: int = 12

  // ---- scalars ----------------------------------------------------------------------
  pure val NSC: int = 9
  pure def mkSc(c: int, i: int, r: int): int =
    if (c == 0) r % L
    else if (c == 1) pick([0, 1, 2, 3, L - 1, L - 2, L - 3, (L - 1) / 2, (L + 1) / 2, 2^445, 2^445 - 1, 2^224, 2^224 - 1, 2^32, 2^32 - 1], i)
    else if (c == 2) 2^(i % 446) % L
    else if (c == 3) L - 1 - 2^(i % 445)
    else if (c == 4) range(0, 14).foldl({ v: 0, r: r }, (s, j) =>
      { v: s.v + 2^(32 * j) * pick([0, 2^32 - 1, 1, 2^31, 2^32 - 2], s.r % 5), r: s.r / 5 }).v % L
    else if (c == 5) (L - r % 2^(1 + i % 445)) % L
    else if (c == 6) denseScalar(i, r)
    else if (c == 7) L - 1 - denseScalar(i, r)
    else r % 2^(1 + i % 445)
  // a scalar near one where an operation on x and it wraps
  pure val NRELS: int = 8
  pure def relScalar(c: int, x: int, y: int): int =
    if (c == 0) (L - x) % L else if (c == 1) (2 * L - 1 - x) % L else if (c == 2) (L + 1 - x) % L
    else if (c == 3) x else if (c == 4) (x + 1) % L else if (c == 5) (x + L - 1) % L
    else if (c == 6) (x * ((L + 1) / 2)) % L
    else (L - x + y % 2^32) % L
  pure def w56(x: int): Bytes = bstr(56, x)
  pure def scalarCase(k: int, x: int, y: int, i: int, r: int, r2: int): List[Call] =
    if (k == 0) [oc("s_add", [w56(x), w56(y)], [], sbytes(x + y))]
    else if (k == 1) [oc("s_sub", [w56(x), w56(y)], [], sbytes(x + L - y)), oc("s_sub", [w56(0), w56(y)], [], sbytes(L - y))]
    else if (k == 2) [oc("s_mul", [w56(x), w56(y)], [], sbytes(x * y)), oc("s_mul", [w56(y), w56(x)], [], sbytes(x * y))]
    else if (k == 3) [oc("s_halve", [w56(x)], [], sbytes(x * ((L + 1) / 2)))]
    else if (k == 4) { val b = bstr(57, if (i % 4 == 0) r else if (i % 4 == 1) x + L * (r2 % 900) else if (i % 4 == 2) 256^57 - 1 - x else clamp(r))
                       [oc("s_decode_long", [b], [], sbytes(b.v))] }
    else if (k == 5) { val b = bstr(114, if (i % 3 == 0) r + 256^57 * r2 else if (i % 3 == 1) x + L * (r + 256^56 * (r2 % 256^57)) % 256^114 else 256^114 - 1 - x)
                       [oc("s_decode_long", [bstr(114, b.v % 256^114)], [], sbytes(b.v % 256^114))] }
    else [oc("s_encode", [w56(x)], [], oBytes(bstr(57, x)))]
  pure val NSK: int = 7

  // ---- points -----------------------------------------------------------------------
  // Decoding divides the small-order part out: what comes back is the component in the
  // prime-order subgroup.
  pure def pointCase(k: int, e: Bytes, e2: Bytes, s: int, t: int): List[Call] = {
    val d = decode(e.v)
    val d2 = decode(e2.v)
    if (k == 0) [oc("p_decode", [e], [], if (d.ok) oBytes(encPt(primePart(d.pt))) else oTag("err"))]
    else if (k == 1) [oc("p_mul", [e, w56(s)], [], if (d.ok) oBytes(encPt(smul(s, primePart(d.pt)))) else oTag("err"))]
    else if (k == 2) [oc("p_dmul", [e, w56(s), w56(t)], [],
      if (d.ok) oBytes(encPt(padd(smulG((4 * s) % L), smul(t, primePart(d.pt))))) else oTag("err"))]
    else if (k == 3) [oc("p_base_mul", [w56(s)], [], oBytes(encPt(smulG((4 * s) % L))))]
    else [oc("p_equal", [e, e2], [],
      if (not(d.ok and d2.ok)) oTag("err") else oBool(peq(primePart(d.pt), primePart(d2.pt))))]
  }
}

// point arithmetic on decoded points
