// -*- mode: Bluespec; -*-
// C01: whatever is signed verifies, through every signing entry point and both
// verification functions.  The calls here are round trips through the library itself
// (its own public key, its own signature), so nothing but completeness is judged.
module m_complete {
  import bytes.* from "./bytes"
  import cases.* from "./cases"
  type Req = { kind: int, key: Bytes, nonce: Bytes, m: Bytes }
  var last: List[Call]
  var req: Req
  action init = all { last' = [], req' = { kind: 0, key: zeros(57), nonce: zeros(57), m: EMPTY } }

  pure def trip(q: Req): Call =
    if (q.kind == 0) callAs("complete", [q.key, q.m], oTag("true"))
    else if (q.kind == 1) callAs("complete_private", [q.key, q.m], oTag("true"))
    else if (q.kind == 2) callAs("complete_nonce", [q.key, q.nonce, q.m], oTag("true"))
    else callAs("complete_object", [q.key, q.m], oTag("true"))

  // what the specification itself says about that round trip
  pure def specTrip(q: Req): bool =
    if (q.kind == 0 or q.kind == 3) oVerify(derivePublic(q.key), sign(q.key, q.m), q.m).tag == "true"
    else if (q.kind == 1) oVerify(privateToPublic(q.key), signByPrivate(q.key, q.m), q.m).tag == "true"
    else oVerify(secretToPublic(q.key), signSecretNonce(q.key, q.nonce, q.m), q.m).tag == "true"

  action step = {
    nondet kind = 0.to(3).oneOf()
    nondet kc = 0.to(NKEY - 1).oneOf()
    nondet ki = 0.to(9999).oneOf()
    nondet kr = 0.to(R57).oneOf()
    nondet mc = 0.to(NMSG - 1).oneOf()
    nondet mi = 0.to(9999).oneOf()
    nondet mr = 0.to(R57).oneOf()
    val key = mkKey(kc, ki, kr)
    val m = mkMsg(mc, mi, mr)
    val q = { kind: kind, key: key, nonce: mkKey(mi % NKEY, ki, mr),
      m: if (kc == NKEY - 1 and mi % 8 > 0) rareMsg(ki) else if (mi % 12 == 0) ownMsg(key, ki, m) else m }
    all { req' = q, last' = [trip(q)] }
  }
  // long messages: every length up to 700, then around the powers of two
  action stepLong = {
    nondet kind = 0.to(3).oneOf()
    nondet kr = 0.to(R57).oneOf()
    nondet n = 0.to(700).oneOf()
    nondet j = 8.to(20).oneOf()
    nondet d = 0.to(300).oneOf()
    nondet big = 0.to(3).oneOf()
    nondet mr = 0.to(R57).oneOf()
    val m = if (big > 1) rep(2^j + d - 150, mr % 256) else if (big == 1) fill(n, mr) else rep(n * (1 + d % 40), mr % 256)
    val q = { kind: kind, key: bstr(57, kr), nonce: bstr(57, mr), m: m }
    all { req' = q, last' = [trip(q)] }
  }
  // the theorem behind the expected outcomes, evaluated on the specification
  val inv = specTrip(req)
}
