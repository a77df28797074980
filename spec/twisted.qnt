// -*- mode: Bluespec; -*-
// The representation the library computes in.  It works on the 4-isogenous twisted curve
// -x^2 + y^2 = 1 + (D-1) x^2 y^2 in extended coordinates, with addition formulas that are
// not complete there, and compares points by x/y only; decoding applies the isogeny and
// divides by 4, encoding applies the dual isogeny.  This module states those algorithms;
// m_toy checks, for every point, encoding and scalar of small curves, that they compute
// what edwards.qnt says: that the exceptions never occur and the comparison is exact.
module twisted {
  const P: int
  const D: int
  const SIGN: int
  const PBITS: int

  type Ext = { x: int, y: int, z: int, t: int }
  type MaybeExt = { ok: bool, pt: Ext }
  type Niels = { a: int, b: int, c: int, z: int }

  pure def m(a: int, b: int): int = (a * b) % P
  pure def sq(a: int): int = (a * a) % P
  pure def sub(a: int, b: int): int = (a - b + P) % P
  pure def add(a: int, b: int): int = (a + b) % P
  pure def pw(b: int, e: int): int =
    range(0, PBITS).foldl({ e: e, r: 1, b: b }, (s, i) =>
      { e: s.e / 2, r: if (s.e % 2 == 1) (s.r * s.b) % P else s.r, b: (s.b * s.b) % P }).r

  pure val NEUTRAL: Ext = { x: 0, y: 1, z: 1, t: 0 }

  pure def onTwist(p: Ext): bool = and {
    p.z != 0,
    m(p.x, p.y) == m(p.z, p.t),
    sub(sq(p.y), sq(p.x)) == sub(sq(p.z), m(sq(p.t), add(1, P - D))),
  }
  // double_internal
  pure def dbl(p: Ext): Ext = {
    val c = sq(p.x)
    val a = sq(p.y)
    val d = add(c, a)
    val b = sub(sq(add(p.x, p.y)), d)
    val t = sub(a, c)
    val e = sub(add(sq(p.z), sq(p.z)), t)
    { x: m(e, b), y: m(t, d), z: m(t, e), t: m(b, d) }
  }
  // to_projected_niels
  pure def niels(p: Ext): Niels =
    { a: sub(p.y, p.x), b: add(p.x, p.y), c: m(p.t, (2 * D + 2 * P - 2) % P), z: add(p.z, p.z) }
  pure def negNiels(q: Niels): Niels = { a: q.b, b: q.a, c: (P - q.c) % P, z: q.z }
  // add_projected_niels_to_extended
  pure def addN(p: Ext, q: Niels): Ext = {
    val z = m(p.z, q.z)
    val a = m(q.a, sub(p.y, p.x))
    val y = m(q.b, add(p.x, p.y))
    val x = m(q.c, p.t)
    val c = add(a, y)
    val b = sub(y, a)
    val f = sub(z, x)
    val g = add(x, z)
    { x: m(f, b), y: m(g, c), z: m(g, f), t: m(b, c) }
  }
  pure def neg(p: Ext): Ext = { x: (P - p.x) % P, y: p.y, z: p.z, t: (P - p.t) % P }
  pure def plus(p: Ext, q: Ext): Ext = addN(p, niels(q))

  // mod_equal: the quotients x/y
  pure def sameRatio(p: Ext, q: Ext): bool = m(p.y, q.x) == m(p.x, q.y)
  pure def same(p: Ext, q: Ext): bool = m(p.x, q.z) == m(q.x, p.z) and m(p.y, q.z) == m(q.y, p.z)

  // the isogeny, as eddsa_like_decode applies it to (x, y)
  pure def phi(x: int, y: int): Ext = {
    val c = sq(x)
    val a = sq(y)
    val d = add(c, a)
    val b = sub(sq(add(x, y)), d)
    val t = sub(a, c)
    val e = sub(2, d)
    { x: m(e, b), y: m(t, d), z: m(t, e), t: m(b, d) }
  }
  // eddsa_like_encode: the dual isogeny, negated, then the encoding of the point
  pure def encodeExt(p: Ext): int = {
    val x2 = sq(p.x)
    val y2 = sq(p.y)
    val u = add(x2, y2)
    val w = sub(u, sq(add(p.y, p.x)))
    val z = sub(y2, x2)
    val t = sub(add(sq(p.z), sq(p.z)), z)
    val zi = pw(m(u, t), P - 2)
    val xe = m(m(t, w), zi)
    val ye = m(m(z, u), zi)
    ye + (xe % 2) * 2^SIGN
  }
  // eddsa_like_decode before the division by 4
  pure def decodeExt(e: int): MaybeExt = {
    val low = (e / 2^SIGN) % 2
    val y = e % 2^SIGN
    if (y >= P) { ok: false, pt: NEUTRAL }
    else {
      val z = sub(1, sq(y))
      val t = sub(1, m(D, sq(y)))
      val x0 = m(pw(m(z, t), (P - 3) / 4), z)
      // the other root: the encoder's dual isogeny changes the sign back
      val x = if (x0 % 2 != low) x0 else (P - x0) % P
      val p = phi(x, y)
      { ok: onTwist(p) and not(x0 == 0 and low == 1), pt: p }
    }
  }

  // ---- multiples -----------------------------------------------------------------
  // k P from odd multiples only, signed digits of w bits, most significant first: the
  // shape of point_scalar_mul.  `digits` are odd.
  pure def byDigits(p: Ext, digits: List[int], w: int): Ext = {
    val two = niels(dbl(p))
    val odd = range(0, 2^(w - 1)).foldl({ q: p, out: [] }, (s, i) =>
      { q: addN(s.q, two), out: s.out.append(niels(s.q)) }).out
    digits.foldl({ first: true, r: NEUTRAL }, (s, d) => {
      val n = if (d > 0) odd[d / 2] else negNiels(odd[(-d) / 2])
      if (s.first) { first: false, r: fromNiels(n) }
      else { first: false, r: addN(range(0, w).foldl(s.r, (q, i) => dbl(q)), n) }
    }).r
  }
  // to_extended_point
  pure def fromNiels(n: Niels): Ext = {
    val eu = add(n.b, n.a)
    val y = sub(n.b, n.a)
    { x: m(n.z, y), y: m(n.z, eu), z: sq(n.z), t: m(y, eu) }
  }
  // double-and-add, for reference
  pure def times(k: int, p: Ext): Ext =
    range(0, PBITS).foldl({ k: k, r: NEUTRAL, q: p }, (s, i) =>
      if (s.k == 0) s
      else { k: s.k / 2, r: if (s.k % 2 == 1) plus(s.r, s.q) else s.r, q: dbl(s.q) }).r
}
