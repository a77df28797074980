// -*- mode: Bluespec; -*-
// Ed448 as this library provides it: RFC 8032 Ed448 (pure, empty context) plus
// core-coin's second kind of private key.  Pure functions on byte strings; they
// are the meaning of the library's goldilocks::* functions.
module ed448 {
  import bytes.* from "./bytes"
  import shake256.* from "./shake256"
  import edwards(
    P = 2^448 - 2^224 - 1,
    D = 2^448 - 2^224 - 1 - 39081,
    L = 2^446 - 13818066809895115352007386748515426880336692474882178609894547503885,
    GX = 224580040295924300187604334099896036246789641632564134246125461686950415467406032909029192869357953282578032075146446173674602635247710,
    GY = 298819210078481492676017930443930673437544040154080242095928241372331506189835876003536878655418784733982303233503462500531545062832660,
    SIGN = 455,
    PBITS = 448
  ) as E from "./edwards"
  export bytes.*

  // The curve's vocabulary under plain names (Quint does not re-export instances).
  type Pt = { x: int, y: int, z: int }
  type MaybePt = { ok: bool, pt: Pt }
  pure val P: int = E::P
  pure val D: int = E::D
  pure val L: int = E::L
  pure val ID: Pt = E::ID
  pure val G: Pt = E::G
  pure val T2: Pt = E::T2
  pure val T4: Pt = E::T4
  pure val QUARTER: int = E::QUARTER
  pure def onCurve(p: Pt): bool = E::onCurve(p)
  pure def padd(p: Pt, q: Pt): Pt = E::padd(p, q)
  pure def pneg(p: Pt): Pt = E::pneg(p)
  pure def peq(p: Pt, q: Pt): bool = E::peq(p, q)
  pure def smul(k: int, p: Pt): Pt = E::smul(k, p)
  pure def smulG(k: int): Pt = E::smulG(k)
  pure def encode(p: Pt): int = E::encode(p)
  pure def decode(e: int): MaybePt = E::decode(e)
  pure def primePart(p: Pt): Pt = E::primePart(p)
  pure def equationHolds(aPt: Pt, rPt: Pt, s: int, k: int): bool = E::equationHolds(aPt, rPt, s, k)

  pure val KEYLEN: int = 57
  pure val SIGLEN: int = 114

  // dom4(0, "") = "SigEd448" 00 00
  pure val DOM: Bytes = ofList([83, 105, 103, 69, 100, 52, 52, 56, 0, 0])
  pure def hashDom(m: Bytes): Bytes = shake(bcat(DOM, m), 114)
  pure def hashScalar(m: Bytes): int = hashDom(m).v % L

  // Clear the two low bits and the last byte, set the highest bit below it.
  pure def clamp(s: int): int = {
    val low = s % (2^448)
    val t = low - low % 4
    if ((t / 2^447) % 2 == 1) t else t + 2^447
  }

  pure def isExpanded(key: Bytes): bool = bitAt(key, 455) == 1

  // ---- key kinds ---------------------------------------------------------------
  // seed key (top bit clear): scalar and prefix are the halves of SHAKE256(key, 114)
  // expanded key (top bit set): the key is the scalar, and its clamped form the prefix
  type Secret = { s: int, prefix: Bytes }
  pure def hashKey(key: Bytes): Bytes = shake(key, 114)
  pure def expandSeed(key: Bytes): Secret = {
    val h = hashKey(key)
    { s: clamp(btake(h, 57).v), prefix: bdrop(h, 57) }
  }
  pure def expandKey(key: Bytes): Secret =
    if (isExpanded(key)) { s: clamp(key.v), prefix: bstr(57, clamp(key.v)) }
    else expandSeed(key)

  pure def publicOfScalar(s: int): Bytes = bstr(57, encode(smulG(s % L)))

  pure def privateToSecret(key: Bytes): Bytes = {
    val h = shake(key, 57)
    if (bitAt(h, 455) == 1) h else bstr(57, h.v + 2^455)
  }
  pure def secretToPublic(sec: Bytes): Bytes = publicOfScalar(clamp(sec.v))
  pure def privateToPublic(key: Bytes): Bytes = publicOfScalar(expandSeed(key).s)
  pure def derivePublic(key: Bytes): Bytes = publicOfScalar(expandKey(key).s)

  // ---- signing -------------------------------------------------------------------
  pure def signWith(s: int, prefix: Bytes, m: Bytes): Bytes = {
    val aEnc = publicOfScalar(s)
    val r = hashScalar(bcat(prefix, m))
    val rEnc = publicOfScalar(r)
    val k = hashScalar(bcat(bcat(rEnc, aEnc), m))
    bcat(rEnc, bstr(57, (r + k * s) % L))
  }
  pure def sign(key: Bytes, m: Bytes): Bytes = {
    val e = expandKey(key)
    signWith(e.s, e.prefix, m)
  }
  pure def signByPrivate(key: Bytes, m: Bytes): Bytes = {
    val e = expandSeed(key)
    signWith(e.s, e.prefix, m)
  }
  pure def signSecretNonce(sec: Bytes, nonce: Bytes, m: Bytes): Bytes =
    signWith(clamp(sec.v), nonce, m)

  // ---- verification --------------------------------------------------------------
  // The order of the tests is the order in which the library reports them.
  type Verdict =
    | Accept
    | Reject
    | ErrInvalidSignature
    | ErrPubkeyLength
    | ErrDecodePubkey
    | ErrSignatureLength
    | ErrDecodeSignature

  pure def isZero(b: Bytes, n: int): bool = b.n == n and b.v == 0

  pure def challenge(rEnc: Bytes, pk: Bytes, m: Bytes): int =
    hashScalar(bcat(bcat(rEnc, pk), m))

  pure def verify(pk: Bytes, sig: Bytes, m: Bytes): Verdict =
    if (isZero(pk, 57) or isZero(sig, 114)) ErrInvalidSignature
    else if (pk.n != 57) ErrPubkeyLength
    else {
      val a = decode(pk.v)
      if (not(a.ok)) ErrDecodePubkey
      else if (sig.n < 114) ErrSignatureLength
      else {
        val rEnc = btake(sig, 57)
        val s = bslice(sig, 57, 114).v
        val r = decode(rEnc.v)
        if (not(r.ok)) ErrDecodeSignature
        else if (s >= L) ErrDecodeSignature
        else if (equationHolds(a.pt, r.pt, s, challenge(rEnc, pk, m))) Accept
        else Reject
      }
    }

  // verify_with_error folds "false" into the error
  pure def verdictWithError(v: Verdict): Verdict =
    match v {
      | Reject => ErrInvalidSignature
      | _ => v
    }
  pure def verdictName(v: Verdict): str =
    match v {
      | Accept => "true"
      | Reject => "false"
      | ErrInvalidSignature => "InvalidSignatureError"
      | ErrPubkeyLength => "InvalidPubkeyLengthError"
      | ErrDecodePubkey => "DecodePubkeyError"
      | ErrSignatureLength => "InvalidSignatureLengthError"
      | ErrDecodeSignature => "DecodeSignatureError"
    }
}
