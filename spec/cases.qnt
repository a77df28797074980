// -*- mode: Bluespec; -*-
// Scenarios: short call sequences a client performs, each call with the outcome the
// specification gives it.  The machines choose scenarios and their inputs.
module cases {
  import api.* from "./api"
  import pools.* from "./pools"
  export api.*
  export pools.*

  // ---- keys -------------------------------------------------------------------
  // Every way of getting a public key from a private key, and their agreement.
  pure def scDerive(key: Bytes): List[Call] = {
    val d = derivePublic(key)
    val p2s = privateToSecret(key)
    val s2p = if (isExpanded(key)) d else secretToPublic(key)
    val p2p = if (isExpanded(key)) privateToPublic(key) else d
    [ callAs("derive", [key], oBytes(d)),
      callAs("private_to_secret", [key], oBytes(p2s)),
      callAs("secret_to_public", [key], oBytes(s2p)),
      callAs("private_to_public", [key], oBytes(p2p)),
      // a derived secret is an expanded key for the same public key
      callAs("derive", [p2s], oBytes(p2p)),
      callAs("secret_to_public", [p2s], oBytes(p2p)),
      callAs("pt_encode", [key], oBytes(s2p)) ]
  }
  // Bits that clamping ignores do not change an expanded key.
  pure def scClamp(key: Bytes, noise: int): List[Call] = {
    val k1 = bstr(57, key.v % 2^455 + 2^455)
    val low = k1.v - k1.v % 4 - ((k1.v / 2^447) % 2) * 2^447
    val base = low % 2^447
    val k2 = bstr(57, base + noise % 4 + 2^447 * ((noise / 4) % 2) + 2^448 * ((noise / 8) % 128) + 2^455)
    val d = derivePublic(k1)
    [ callAs("derive", [k1], oBytes(d)), callAs("derive", [k2], oBytes(d)),
      callAs("secret_to_public", [k2], oBytes(d)), callAs("pt_encode", [k1], oBytes(d)) ]
  }

  // ---- signatures ---------------------------------------------------------------
  pure def scSign(key: Bytes, m: Bytes): List[Call] = {
    val o = oBytes(sign(key, m))
    [ callAs("sign", [key, m], o), callAs("sign", [key, m], o) ]
  }
  pure def scSignVerify(key: Bytes, m: Bytes): List[Call] = {
    val pk = derivePublic(key)
    val sig = sign(key, m)
    [ callAs("derive", [key], oBytes(pk)), callAs("sign", [key, m], oBytes(sig)) ]
      .concat(verifyBoth(pk, sig, m))
  }
  pure def scSignPrivate(key: Bytes, m: Bytes): List[Call] = {
    val o = oBytes(signByPrivate(key, m))
    [ callAs("sign_private", [key, m], o) ]
  }
  pure def scSecretNonce(sec: Bytes, nonce: Bytes, m: Bytes): List[Call] =
    [ call("sign_secret_nonce", [sec, nonce, m]) ]
  // The relations between the signing entry points.
  pure def scSignRelations(key: Bytes, m: Bytes): List[Call] = {
    val seed = bstr(57, key.v % 2^455)
    val exp_ = bstr(57, seed.v + 2^455)
    val h = hashKey(seed)
    val viaSeed = signByPrivate(seed, m)
    val cl = bstr(57, clamp(exp_.v))
    val viaExp = sign(exp_, m)
    [ callAs("sign", [seed, m], oBytes(viaSeed)),
      callAs("sign_private", [seed, m], oBytes(viaSeed)),
      callAs("sign_secret_nonce", [btake(h, 57), bdrop(h, 57), m], oBytes(viaSeed)),
      callAs("sign", [exp_, m], oBytes(viaExp)),
      callAs("sign_secret_nonce", [cl, cl, m], oBytes(viaExp)),
      callAs("sign_secret_nonce", [exp_, cl, m], oBytes(viaExp)),
      // the nonce is taken as it is, also where it is the secret
      call("sign_secret_nonce", [exp_, exp_, m]) ]
  }

  // Messages made of what signing works with.
  pure def ownMsg(key: Bytes, i: int, m: Bytes): Bytes =
    if (i % 7 == 0) key
    else if (i % 7 == 1) derivePublic(key)
    else if (i % 7 == 2) bcat(derivePublic(key), m)
    else if (i % 7 == 3) hashKey(key)
    else if (i % 7 == 4) bcat(bdrop(hashKey(key), 57), m)
    else if (i % 7 == 5) { val s = sign(key, m) bcat(btake(s, 57), bcat(derivePublic(key), m)) }
    else sign(key, m)

  // ---- verification ---------------------------------------------------------------
  type Triple = { pk: Bytes, sig: Bytes, m: Bytes }
  pure def triple(pk: Bytes, sig: Bytes, m: Bytes): Triple = { pk: pk, sig: sig, m: m }
  pure def check(t: Triple): List[Call] = verifyBoth(t.pk, t.sig, t.m)
  pure def genuine(key: Bytes, m: Bytes): Triple = triple(derivePublic(key), sign(key, m), m)

  pure def withS(t: Triple, s: int): Triple = t.with("sig", bcat(btake(t.sig, 57), bstr(57, s)))
  pure def withR(t: Triple, rEnc: Bytes): Triple = t.with("sig", bcat(rEnc, bdrop(t.sig, 57)))
  pure def sOf(t: Triple): int = bslice(t.sig, 57, 114).v
  pure def rOf(t: Triple): Bytes = btake(t.sig, 57)
  pure def addTorsion(e: Bytes, i: int): Bytes = encPt(padd(decode(e.v).pt, torsion(i)))
  pure def swapBytes(b: Bytes, i: int, j: int): Bytes = {
    val x = byteAt(b, i)
    val y = byteAt(b, j)
    setByte(setByte(b, i, y), j, x)
  }

  // Changes to a genuine (public key, signature, message).
  pure val NMUT: int = 34
  pure def mutate(c: int, i: int, r: int, t: Triple): Triple =
    if (c == 0) t.with("sig", flipBit(t.sig, i % 912))
    else if (c == 1) t.with("pk", flipBit(t.pk, i % 456))
    else if (c == 2) t.with("m", if (t.m.n == 0) bstr(1, i % 256) else flipBit(t.m, i % (8 * t.m.n)))
    else if (c == 3) withS(t, sOf(t) + L * (1 + i % 900))
    else if (c == 4) withS(t, sOf(t) + L)
    else if (c == 5) withS(t, (L - sOf(t)) % L)
    else if (c == 6) withS(t, pick([0, 1, 2, L - 1, L, L + 1, 2 * L - 1, 2 * L, 3 * L, 4 * L, 2^445, 2^446 - 1, 2^446, 2^447, 2^448 - 1, 2^448, 2^455, 2^456 - 1], i))
    else if (c == 7) withS(t, sOf(t) + 2^448 * (1 + i % 255))
    else if (c == 8) withR(t, addTorsion(rOf(t), 1 + i % 3))
    else if (c == 9) t.with("pk", addTorsion(t.pk, 1 + i % 3))
    else if (c == 10) withR(t, flipBit(rOf(t), 455))
    else if (c == 11) withS(withR(t, flipBit(rOf(t), 455)), (L - sOf(t)) % L)
    else if (c == 12) t.with("pk", flipBit(t.pk, 455))
    else if (c == 13) t.with("pk", bstr(57, t.pk.v + 2^448 * (1 + i % 127)))
    else if (c == 14) withR(t, bstr(57, rOf(t).v + 2^448 * (1 + i % 127)))
    else if (c == 15) t.with("pk", mkPoint(i % NPT, i / NPT, r))
    else if (c == 16) withR(t, mkPoint(i % NPT, i / NPT, r))
    else if (c == 17) t.with("m", bcat(t.m, bstr(1, pick([0, 1, 31, 128, 255], i))))
    else if (c == 18) t.with("m", if (t.m.n == 0) zeros(1) else btake(t.m, t.m.n - 1))
    else if (c == 19) t.with("m", if (t.m.n == 0) zeros(3) else bdrop(t.m, 1 + i % t.m.n))
    else if (c == 20) t.with("m", bcat(zeros(1 + i % 8), t.m))
    else if (c == 21) t.with("m", bcat(t.m, zeros(1 + i % 200)))
    else if (c == 22) t.with("sig", bcat(bdrop(t.sig, 57), rOf(t)))
    else if (c == 23) t.with("sig", bcat(t.pk, bdrop(t.sig, 57)))
    else if (c == 24) t.with("sig", setByte(t.sig, i % 114, r % 256))
    else if (c == 25) t.with("pk", setByte(t.pk, i % 57, r % 256))
    else if (c == 26) t.with("m", if (t.m.n == 0) bstr(2, r % 65536) else setByte(t.m, i % t.m.n, r % 256))
    else if (c == 27) t.with("sig", swapBytes(t.sig, i % 114, r % 114))
    else if (c == 28) t.with("m", if (t.m.n == 0) ones(1) else swapBytes(t.m, i % t.m.n, r % t.m.n))
    else if (c == 29) triple(t.pk, t.sig, bcat(t.m, t.m))
    else if (c == 30) triple(t.pk, t.sig, bcat(t.pk, t.m))
    else if (c == 31) withS(t, r % L)
    else if (c == 32) withR(t, encPt(smulG(r % L)))
    // R and S moved together: consistent with another nonce, not with the challenge
    else withS(withR(t, encPt(padd(decode(rOf(t).v).pt, smulG(r % L)))), (sOf(t) + r) % L)

  // Bytes after the signature: none, the public key (as signing-key objects append it),
  // something else of that length, or of any length.
  pure def after(i: int, r: int, pk: Bytes): Bytes =
    if (i % 8 < 4) EMPTY
    else if (i % 8 == 4) pk
    else if (i % 8 == 5) pick3(i / 8, bstr(57, r % 256^57), zeros(57), flipBit(pk, r % 456))
    else if (i % 8 == 6) fill(1 + i / 8 % 300, r)
    else pick3(i / 8, bstr(1, r % 256), bcat(pk, bstr(1, r % 256)), zeros(114))
  pure def pick3(i: int, a: Bytes, b: Bytes, c: Bytes): Bytes =
    if (i % 3 == 0) a else if (i % 3 == 1) b else c
  pure def withTail(i: int, r: int, pk: Bytes, t: Triple): Triple = t.with("sig", bcat(t.sig, after(i, r, pk)))

  // The parts of a triple that a verdict is about.
  pure def same(t: Triple, u: Triple): bool =
    t.pk == u.pk and btake(t.sig, 114) == btake(u.sig, 114) and t.m == u.m

  // Well-formed triples by construction, with chosen discrete logarithms and small-order
  // parts: A = a B + T_i, R = r B + T_j, S = r + k a (or off by delta).
  pure def crafted(a: int, i: int, r: int, j: int, delta: int, m: Bytes): Triple = {
    val aEnc = encPt(padd(smulG(a % L), torsion(i)))
    val rEnc = encPt(padd(smulG(r % L), torsion(j)))
    val k = challenge(rEnc, aEnc, m)
    triple(aEnc, bcat(rEnc, bstr(57, (r + k * a + delta) % L)), m)
  }
  pure val NCRAFT: int = 17
  pure def scCrafted(c: int, i: int, r: int, r2: int, m: Bytes): Triple = {
    val d = if (i % 5 == 0) 1 + r2 % 7 else 0
    val ti = (i / 5) % 4
    val tj = (i / 20) % 4
    if (c == 0) crafted(r, ti, r2, tj, 0, m)
    else if (c == 1) crafted(r, ti, r2, tj, d, m)
    else if (c == 2) crafted(0, ti, r2, tj, d, m)              // public key of small order
    else if (c == 3) crafted(r, ti, 0, tj, d, m)               // R of small order
    else if (c == 4) crafted(0, ti, 0, tj, d, m)               // both, S = 0
    else if (c == 5) crafted(1 + i % 3, ti, r2, tj, d, m)
    else if (c == 6) crafted(L - 1 - i % 3, ti, r2, tj, d, m)
    else if (c == 7) crafted(r, ti, 1 + i % 3, tj, d, m)
    else if (c == 8) crafted(r, ti, L - 1 - i % 3, tj, d, m)
    else if (c == 9) crafted(r, ti, r, tj, d, m)               // R and A related
    else if (c == 10) crafted(r, ti, L - r % L, tj, d, m)
    else if (c == 11) crafted(r, 0, r2, 0, L - r2 % L, m)      // S = k a
    else if (c == 12) crafted(2^(i % 446), ti, 2^(r2 % 446), tj, d, m)
    else if (c == 13) crafted(0, ti, denseScalar(r2 % 10000, r), tj, d, m)   // S as chosen
    else if (c == 14) crafted(0, ti, if (r2 % 2 == 0) L - 1 - denseScalar(r2 % 10000, r) else 2^(r2 % 446) % L, tj, d, m)
    else if (c == 15) crafted(denseScalar(i, r), ti, denseScalar(r2 % 10000, r), tj, d, m)
    // S small or sparse: solve for r; the challenge then differs, so both verdicts occur
    else withS(crafted(r, ti, r2, tj, 0, m), pick([0, 1, 2, 2^224, 2^445, L - 1, L - 2, 2^16, 2^32 - 1], i))
  }

  // Does an encoding decode, as a public key and as the R of a signature?  What else is
  // wrong with the triple does not matter.
  pure def decodes(e: Bytes): bool = e.n == 57 and decode(e.v).ok
  pure def scDecodePk(e: Bytes): List[Call] = [callAs("decodes_key", [e], oBool(decodes(e)))]
  pure def scDecodeR(e: Bytes): List[Call] = [callAs("decodes_r", [e], oBool(decodes(e)))]

  pure def scDecodeS(s: Bytes): List[Call] = [callAs("decodes_s", [s], oBool(s.v < L))]
  // S next to the group order and its multiples, in every word
  pure val NSR: int = 9
  pure def mkSRange(c: int, i: int, r: int): Bytes = bstr(57,
    if (c == 0) r % L
    else if (c == 1) L + (i % 9) - 4
    else if (c == 2) L + 2^(i % 456) % 2^454
    else if (c == 3) L - 2^(i % 446) + (if (i % 446 == 445) 2^445 else 0)
    else if (c == 4) (r % L) + L * (1 + i % 1023)
    else if (c == 5) (1 + i % 1023) * L - (i % 3)
    else if (c == 6) r
    // one word (or byte) of L replaced
    else if (c == 7) { val w = 2^(32 * (i % 14)) L - ((L / w) % 2^32) * w + (r % 2^32) * w }
    else { val w = 256^(i % 57) L - ((L / w) % 256) * w + (r % 256) * w })

  // Arbitrary lengths and contents.
  pure def anyBytes(n: int, c: int, r: int): Bytes =
    if (c == 0) zeros(n) else if (c == 1) ones(n) else if (c == 2) fill(n, r) else bstr(n, if (n == 0) 0 else r % 256)
  pure def resize(b: Bytes, n: int, c: int, r: int): Bytes =
    if (n <= b.n) btake(b, n) else bcat(b, anyBytes(n - b.n, c, r))
}
