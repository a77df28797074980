// -*- mode: Bluespec; -*-
// The untwisted Edwards curve  x^2 + y^2 = 1 + D x^2 y^2  over GF(P), P = 3 mod 4,
// with a group of order 4*L (L prime, 4-torsion cyclic) and the RFC 8032 point
// encoding: y below bit SIGN, the parity of x at bit SIGN.
// Parameters, so that the same text is instantiated twice: with Ed448's constants
// (bound to the code) and with toy curves small enough to enumerate completely.
module edwards {
  const P: int      // field modulus
  const D: int      // curve constant, a non-square
  const L: int      // order of the prime subgroup
  const GX: int     // base point of order L
  const GY: int
  const SIGN: int   // bit position of the sign of x in an encoding
  const PBITS: int  // bits of P

  type Pt = { x: int, y: int, z: int }  // projective, z /= 0
  type MaybePt = { ok: bool, pt: Pt }

  pure def fmul(a: int, b: int): int = (a * b) % P
  pure def fsub(a: int, b: int): int = (a - b + P) % P
  pure def fadd(a: int, b: int): int = (a + b) % P
  pure def fneg(a: int): int = (P - a) % P
  pure def fpow(b: int, e: int): int =
    range(0, PBITS).foldl({ e: e, r: 1, b: b }, (s, i) =>
      { e: s.e / 2, r: if (s.e % 2 == 1) (s.r * s.b) % P else s.r, b: (s.b * s.b) % P }).r
  pure def finv(a: int): int = fpow(a, P - 2)
  pure def isSquare(a: int): bool = a == 0 or fpow(a, (P - 1) / 2) == 1

  pure val ID: Pt = { x: 0, y: 1, z: 1 }
  pure val G: Pt = { x: GX, y: GY, z: 1 }
  pure val T2: Pt = { x: 0, y: P - 1, z: 1 }  // order 2
  pure val T4: Pt = { x: 1, y: 0, z: 1 }      // order 4

  pure def onCurve(p: Pt): bool = {
    val xx = fmul(p.x, p.x)
    val yy = fmul(p.y, p.y)
    val zz = fmul(p.z, p.z)
    p.z % P != 0 and fmul(fadd(xx, yy), zz) == fadd(fmul(zz, zz), fmul(D, fmul(xx, yy)))
  }

  // Complete addition law (D is a non-square).
  pure def padd(p: Pt, q: Pt): Pt = {
    val a = (p.z * q.z) % P
    val b = (a * a) % P
    val c = (p.x * q.x) % P
    val d = (p.y * q.y) % P
    val e = (((D * c) % P) * d) % P
    val f = (b - e + P) % P
    val g = (b + e) % P
    val h = ((p.x + p.y) * (q.x + q.y)) % P
    { x: (((a * f) % P) * ((h - c - d + 2 * P) % P)) % P,
      y: (((a * g) % P) * ((d - c + P) % P)) % P,
      z: (f * g) % P }
  }
  pure def pneg(p: Pt): Pt = { x: (P - p.x) % P, y: p.y, z: p.z }
  pure def peq(p: Pt, q: Pt): bool =
    (p.x * q.z) % P == (q.x * p.z) % P and (p.y * q.z) % P == (q.y * p.z) % P
  // doubling, as RFC 8032 5.2.4 writes it; equal to padd(p, p) (m_toy enumerates that)
  pure def pdbl(p: Pt): Pt = {
    val c = (p.x * p.x) % P
    val d = (p.y * p.y) % P
    val e = c + d
    val j = e + 2 * (P - (p.z * p.z) % P)
    { x: (((p.x + p.y) * (p.x + p.y) + 2 * P - e) * j) % P, y: (e * (P + c - d)) % P, z: (e * j) % P }
  }
  pure def p4(p: Pt): Pt = pdbl(pdbl(p))
  // k P, four bits of k at a time from the top
  pure val NIBBLES: int = (PBITS + 3) / 4
  pure def smul(k: int, p: Pt): Pt = {
    val multiples = range(0, 14).foldl([ID, p], (l, i) => l.append(padd(l[i + 1], p)))
    range(0, NIBBLES).foldl({ w: 16^(NIBBLES - 1), k: k % 16^NIBBLES, r: ID }, (s, i) => {
      val r4 = if (s.r == ID) ID else p4(p4(s.r))
      val d = s.k / s.w
      { w: s.w / 16, k: s.k % s.w, r: if (d == 0) r4 else padd(r4, multiples[d]) }
    }).r
  }

  // d 16^i G, so that a multiple of the base point is additions only
  pure val GPOW: List[List[Pt]] =
    range(0, NIBBLES).foldl({ q: G, out: [] }, (s, i) => {
      val row = range(0, 14).foldl([ID, s.q], (l, j) => l.append(padd(l[j + 1], s.q)))
      { q: padd(row[15], s.q), out: s.out.append(row) }
    }).out
  pure def smulG(k: int): Pt =
    range(0, NIBBLES).foldl({ k: k, r: ID }, (s, i) =>
      if (s.k % 16 == 0) { k: s.k / 16, r: s.r }
      else { k: s.k / 16, r: padd(s.r, GPOW[i][s.k % 16]) }).r

  pure def normal(p: Pt): Pt = {
    val zi = finv(p.z)
    { x: fmul(p.x, zi), y: fmul(p.y, zi), z: 1 }
  }

  pure def encode(p: Pt): int = {
    val q = normal(p)
    q.y + (q.x % 2) * 2^SIGN
  }

  // RFC 8032, 5.2.3.  Everything that is not the encoding of a curve point fails:
  // y >= P, a set bit between y and the sign, no square root, x = 0 with sign 1.
  pure def decode(e: int): MaybePt = {
    val sign = (e / 2^SIGN) % 2
    val y = e % (2^SIGN)
    if (y >= P) { ok: false, pt: ID }
    else {
      val u = fsub(fmul(y, y), 1)
      val v = fsub(fmul(D, fmul(y, y)), 1)
      val u3v = fmul(fmul(u, fmul(u, u)), v)
      val x = fmul(u3v, fpow(fmul(u3v, fmul(fmul(u, u), fmul(v, v))), (P - 3) / 4))
      if (fmul(v, fmul(x, x)) != u) { ok: false, pt: ID }
      else if (x == 0 and sign == 1) { ok: false, pt: ID }
      else { ok: true, pt: { x: if (x % 2 == sign) x else P - x, y: y, z: 1 } }
    }
  }

  // The component of p in the prime-order subgroup.
  pure val QUARTER: int = range(1, 5).foldl(0, (acc, j) => if ((j * L + 1) % 4 == 0) (j * L + 1) / 4 else acc)
  pure def primePart(p: Pt): Pt = smul(QUARTER, p4(p))

  // The EdDSA acceptance condition, cofactored:  4 S B = 4 R + 4 k A.
  pure def equationHolds(aPt: Pt, rPt: Pt, s: int, k: int): bool =
    peq(p4(padd(padd(smulG(s), pneg(rPt)), pneg(smul(k, aPt)))), ID)
}
