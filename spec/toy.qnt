// -*- mode: Bluespec; -*-
// What the rest of the specification takes for granted about the curve, and what the
// library's own representation (twisted.qnt, recode.qnt) takes for granted about itself,
// as statements about one small curve that can be enumerated completely.
module toy {
  const P: int
  const D: int
  const L: int
  const GX: int
  const GY: int
  const SIGN: int
  const PBITS: int
  import edwards(P = P, D = D, L = L, GX = GX, GY = GY, SIGN = SIGN, PBITS = PBITS) as E from "./edwards"
  import twisted(P = P, D = D, SIGN = SIGN, PBITS = PBITS) as W from "./twisted"
  import recode.* from "./recode"

  pure def torsionPt(i: int): { x: int, y: int, z: int } =
    if (i == 0) E::ID else if (i == 1) E::T2 else if (i == 2) E::T4 else E::padd(E::T2, E::T4)
  pure def point(a: int, i: int): { x: int, y: int, z: int } = E::normal(E::padd(E::smulG(a), torsionPt(i)))
  pure def iso(p: { x: int, y: int, z: int }): { x: int, y: int, z: int, t: int } = W::phi((P - p.x) % P, p.y)
  pure val HALF: int = (L + 1) / 2
  pure val FOURTH: int = (HALF * HALF) % L
  pure val N2: int = (PBITS + 1) / 2
  // multiplication as the library does it: signed odd windows
  pure def mul(k: int, p: { x: int, y: int, z: int, t: int }): { x: int, y: int, z: int, t: int } =
    W::byDigits(p, windows(k, L, 2, N2), 2)
  pure def mul3(k: int, p: { x: int, y: int, z: int, t: int }): { x: int, y: int, z: int, t: int } =
    W::byDigits(p, windows(k, L, 3, N2), 3)

  // The library's tables hold the base point plus the point of order 2; encoding and
  // comparison cannot tell.
  pure def shifted(p: { x: int, y: int, z: int, t: int }): { x: int, y: int, z: int, t: int } =
    { x: (P - p.x) % P, y: (P - p.y) % P, z: p.z, t: p.t }
  pure val TABLE: { x: int, y: int, z: int, t: int } = shifted(iso(E::G))

  // Encodings, all of them: the two decoders accept the same, RFC encoding is injective,
  // and what the library's decoder keeps is the component of prime order.
  pure def encodings(e: int): bool = {
    val d = E::decode(e)
    val w = W::decodeExt(e)
    and {
      d.ok == w.ok,
      d.ok implies {
        val q = mul(FOURTH, w.pt)
        and {
          E::onCurve(d.pt), E::encode(d.pt) == e, W::onTwist(w.pt), W::onTwist(q),
          W::encodeExt(q) == E::encode(E::primePart(d.pt)),
        }
      },
    }
  }
  // Multiples: the isogeny lands in a group of order L, its dual brings back 4 P.
  pure def multiples(a: int, i: int, k: int): bool = {
    val p = point(a, i)
    val q = iso(p)
    val r = mul(k, q)
    and {
      E::onCurve(p), E::decode(E::encode(p)).ok, E::peq(E::pdbl(p), E::padd(p, p)),
      E::peq(E::smul(4 * L, p), E::ID), E::peq(E::smul(k, E::smulG(a)), E::smulG((k * a) % L)),
      W::onTwist(q), W::same(W::times(L, q), W::NEUTRAL),
      W::onTwist(r), W::same(r, W::times(k, q)), W::same(r, mul3(k, q)),
      W::encodeExt(r) == E::encode(E::smul(4 * k, p)),
      W::encodeExt(mul(k, mul(FOURTH, q))) == E::encode(E::smul(k, E::primePart(p))),
      // a key: k/4 times the image of the base point encodes k times the base point
      W::encodeExt(mul((k * FOURTH) % L, TABLE)) == E::encode(E::smulG(k)),
      W::encodeExt(shifted(r)) == W::encodeExt(r), W::onTwist(mul(k, TABLE)),
    }
  }
  // Pairs: addition never meets an exception in the image, and equal quotients mean equal points.
  pure def pairs(a: int, i: int, b: int, j: int): bool = {
    val p = point(a, i)
    val q = point(b, j)
    val u = iso(p)
    val v = iso(q)
    val s = E::padd(p, q)
    and {
      E::onCurve(s), E::peq(s, E::padd(q, p)), E::peq(E::padd(s, E::pneg(q)), p),
      E::peq(p, q) == (a == b and i == j), (E::encode(p) == E::encode(q)) == E::peq(p, q),
      W::onTwist(W::plus(u, v)), W::same(W::plus(u, v), iso(E::normal(s))),
      W::same(u, v) == (a == b), W::sameRatio(u, v) == (a == b), W::sameRatio(shifted(u), v) == (a == b),
      W::onTwist(W::plus(shifted(u), v)), W::same(W::plus(shifted(u), v), shifted(iso(E::normal(s)))),
    }
  }
  // Verdicts: the cofactored equation, the library's computation of it, and S = r + k a.
  pure def verdicts(a: int, i: int, r: int, j: int, s: int, k: int): bool = {
    val pa = point(a, i)
    val pr = point(r, j)
    val a4 = mul(4 % L, mul(FOURTH, iso(pa)))
    val r4 = mul(4 % L, mul(FOURTH, iso(pr)))
    val lhs = W::plus(mul(s, TABLE), mul((L - k) % L, a4))
    val want = s == (r + k * a) % L
    E::equationHolds(pa, pr, s, k) == want and W::sameRatio(r4, lhs) == want and W::onTwist(lhs)
  }
  // Recodings, of every scalar.
  pure def recodings(k: int): bool = and {
    [1, 2, 3, 4, 5].indices().forall(t => {
      val ds = wnaf(k, t + 1, 2)
      valueOf(ds) == k and proper(ds, t + 1) and ds.length() < room(PBITS, t + 1)
    }),
    (windows(k, L, 2, N2).foldl(0, (s, d) => 4 * s + d) + L * 2^20) % L == k % L,
    (combValue(k, L, 2, 2, N2) + L * 2^20) % L == k % L,
  }
}
