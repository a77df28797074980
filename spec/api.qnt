// -*- mode: Bluespec; -*-
// The observable meaning of every public, stateless operation of the library:
// an operation name and byte-string arguments to an outcome.
module api {
  import ed448.* from "./ed448"
  export ed448.*

  // tag: "bytes" (data holds the result), "true", "false", "ok", the name of an
  // error, "err" (an error whose text is not specified) or "panic".
  type Outcome = { tag: str, data: Bytes }
  type Call = { op: str, a: List[Bytes], s: List[int], out: Outcome }

  pure def oBytes(b: Bytes): Outcome = { tag: "bytes", data: b }
  pure def oTag(t: str): Outcome = { tag: t, data: EMPTY }
  pure def oBool(b: bool): Outcome = oTag(if (b) "true" else "false")

  pure def oHex(t: Bytes, n: int): Outcome = {
    val r = fromHex(t, n)
    if (r.ok) oBytes(r.val_) else oTag("panic")
  }

  pure def oVerify(pk: Bytes, sig: Bytes, m: Bytes): Outcome = oTag(verdictName(verify(pk, sig, m)))
  // verify_with_error: Ok(()) for true, InvalidSignatureError for false
  pure def withError(o: Outcome): Outcome =
    if (o.tag == "true") oTag("ok")
    else if (o.tag == "false") oTag("InvalidSignatureError")
    else o

  // A secret's point, by its discrete logarithm, and the point operations a client
  // can apply to it.  Points stay in the prime-order subgroup, so they are scalars.
  pure def dlogOf(secret: Bytes): int = clamp(secret.v) % L

  pure def eval(op: str, a: List[Bytes]): Outcome =
    if (op == "verify") oVerify(a[0], a[1], a[2])
    else if (op == "verify_err") withError(oVerify(a[0], a[1], a[2]))
    else if (op == "sign") oBytes(sign(a[0], a[1]))
    else if (op == "derive") oBytes(derivePublic(a[0]))
    else if (op == "sign_private") oBytes(signByPrivate(a[0], a[1]))
    else if (op == "sign_secret_nonce") oBytes(signSecretNonce(a[0], a[1], a[2]))
    else if (op == "private_to_secret") oBytes(privateToSecret(a[0]))
    else if (op == "secret_to_public") oBytes(secretToPublic(a[0]))
    else if (op == "private_to_public") oBytes(privateToPublic(a[0]))
    else if (op == "hex_message") oHex(a[0], 32)
    else if (op == "hex_key") oHex(a[0], 57)
    else if (op == "hex_signature") oHex(a[0], 114)
    // point_by_secret(a0).eddsa_like_encode()
    else if (op == "pt_encode") oBytes(secretToPublic(a[0]))
    // point_by_secret(a0).point_scalar_mul(a1).eddsa_like_encode()
    else if (op == "pt_mul") oBytes(publicOfScalar((dlogOf(a[0]) * a[1].v) % L))
    // point_by_secret(a0).point_double_scalamul_non_secret(a1, a2): 4 a1 B + a2 P
    else if (op == "pt_dmul") oBytes(publicOfScalar((4 * a[1].v + a[2].v * dlogOf(a[0])) % L))
    // point_by_secret(a0) * a1 == point_by_secret(a2) * a3
    else if (op == "pt_equal") oBool((dlogOf(a[0]) * a[1].v) % L == (dlogOf(a[2]) * a[3].v) % L)
    // every point the API hands out is on the curve
    else if (op == "pt_on_curve" or op == "pt_dmul_on_curve") oTag("true")
    else oTag("unknown")

  pure def call(op: str, a: List[Bytes]): Call = { op: op, a: a, s: [], out: eval(op, a) }
  // a call whose outcome is already known (saves evaluating it twice)
  pure def callAs(op: str, a: List[Bytes], out: Outcome): Call = { op: op, a: a, s: [], out: out }
  pure def verifyBoth(pk: Bytes, sig: Bytes, m: Bytes): List[Call] = {
    val o = oVerify(pk, sig, m)
    [callAs("verify", [pk, sig, m], o), callAs("verify_err", [pk, sig, m], withError(o))]
  }
}
