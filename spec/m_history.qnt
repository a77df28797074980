// -*- mode: Bluespec; -*-
// C11: clusters of calls that anything remembered between calls could confuse: the same
// key with other messages, the same signature under other keys, a point and its
// negative, keys and messages with equal beginnings or ends, calls that fail in between.
// The outcome of a call is a function of its arguments, so the calls of a behaviour have
// the same outcomes in every order, however often they are repeated and on any thread;
// the replay exploits exactly that.
module m_history {
  import bytes.* from "./bytes"
  import cases.* from "./cases"
  var last: List[Call]
  action init = last' = []

  pure def chk(ts: List[Triple]): List[Call] = ts.foldl([], (l, t) => l.concat(check(t)))
  pure def near(k: Bytes, other: Bytes, b: int): List[Bytes] = {
    val h = k.n / 2
    [k, flipBit(k, 8 * k.n - 1), flipBit(k, b % (8 * k.n)), flipBit(k, 2), bcat(btake(k, h), bdrop(other, h)),
     bcat(btake(other, h), bdrop(k, h)), other]
  }
  pure def nearMsg(m: Bytes, other: Bytes, b: int): List[Bytes] =
    [m, flipBit(m, 0), flipBit(m, 8 * m.n - 1), flipBit(m, b % (8 * m.n)), btake(m, m.n - 1), bcat(m, zeros(1)),
     bdrop(m, 1), bcat(btake(m, m.n / 2), bdrop(other, m.n / 2)), EMPTY]

  pure def cluster(k: int, i: int, n: int, r: int, r2: int): List[Call] = {
    val key = bstr(57, r)
    val key2 = bstr(57, r2)
    val m = fill(n, r2)
    val m2 = fill(n, r)
    val ms = nearMsg(m, m2, i)
    // one key, one signature, many messages, parts of another signature
    if (k == 0) {
      val t = genuine(key, m)
      val u = triple(t.pk, sign(key, ms[1]), ms[1])
      val v = triple(t.pk, sign(key, ms[2]), ms[2])
      chk([t, t.with("m", ms[1]), u, u.with("m", m), v, t.with("m", ms[2]), t.with("m", ms[4]), t.with("m", ms[5]),
           withR(t, rOf(u)), withS(t, sOf(u)), t.with("sig", bcat(t.sig, t.pk)), t])
    }
    // one message, several keys
    else if (k == 1) {
      val t = genuine(key, m)
      val u = genuine(flipBit(key, i % 455), m)
      val v = genuine(key2, m)
      chk([t, u, v, t.with("pk", u.pk), u.with("pk", t.pk), t.with("pk", v.pk), v.with("sig", t.sig),
           t.with("pk", bcat(btake(t.pk, 28), bdrop(u.pk, 28))), t.with("pk", flipBit(t.pk, 455)), t])
    }
    // a point and its negative, as key and as R; and with small-order parts
    else if (k == 2) {
      val a = r % L
      val x = r2 % L
      chk([crafted(a, 0, x, 0, 0, m), crafted(L - a, 0, x, 0, 0, m), crafted(a, 0, a, 0, 0, m), crafted(L - a, 0, a, 0, 0, m),
           crafted(a, 0, L - a, 0, 0, m), crafted(L - a, 0, L - a, 0, 0, m), crafted(a, 0, L - x, 0, 0, m),
           crafted(a, 1, x, 0, 0, m), crafted(a, 2, x, 1, 0, m), crafted(a, 0, x, 0, 1, m)])
    }
    // every operation on near-identical keys
    else if (k == 3) {
      val ks = near(key, key2, i)
      ks.append(privateToSecret(key)).foldl([], (l, x) =>
        l.concat([call("derive", [x]), call("sign", [x, m]), call("private_to_secret", [x])]))
    }
    // one key, near-identical messages
    else if (k == 4) ms.foldl([], (l, x) => l.concat([call("sign", [key, x]), call("sign_private", [key, x])]))
    // the two parts of a private key mixed
    else if (k == 5) {
      val kb = flipBit(key, i % 455)
      [[key, key], [key, key2], [key2, key], [key2, key2], [key, kb], [kb, key]].foldl([], (l, x) =>
        l.concat([call("sign_secret_nonce", [x[0], x[1], m]), call("secret_to_public", [x[0]])]))
        .concat([call("sign", [key, m]), call("private_to_public", [key]), call("sign_private", [key, m])])
    }
    // failing calls among succeeding ones
    else if (k == 6) {
      val t = genuine(key, m)
      chk([t, t.with("pk", mkPoint(9, i, r)), t, t.with("pk", zeros(57)), t.with("sig", zeros(114)), t.with("sig", btake(t.sig, 113)),
           withR(t, mkPoint(9, i + 2, r)), withS(t, sOf(t) + L), t.with("pk", btake(t.pk, 56)), t.with("pk", bcat(t.pk, zeros(1))), t])
        .concat([call("hex_key", [toHex(key)]), call("hex_key", [btake(toHex(key), 113)]), call("hex_key", [toHex(key2)]),
                 call("hex_message", [toHex(fill(32, r))]), call("hex_message", [toHex(fill(31, r))]),
                 call("hex_signature", [toHex(t.sig)]), call("hex_signature", [flipBit(toHex(t.sig), 8 * (i % 228) + 6)]),
                 callAs("object_text", [toHex(key)], oBytes(derivePublic(key))),
                 callAs("object_text", [flipBit(toHex(key), 8 * (i % 114) + 6)], oTag("err")),
                 callAs("object_public", [btake(key, 56)], { tag: "InvalidPrivKeyLength", data: bstr(4, 56) }),
                 callAs("object_public", [key], oBytes(derivePublic(key)))])
    }
    // signing-key objects
    else if (k == 7)
      near(key, key2, i).foldl([], (l, x) => l.concat([
        callAs("object_sign", [x, m], oBytes(bcat(sign(x, m), derivePublic(x)))),
        callAs("object_json", [x, m], oBytes(bcat(sign(x, m), derivePublic(x)))),
        callAs("object_public", [x], oBytes(derivePublic(x)))]))
    // small-order keys and R, the same S
    else if (k == 8) {
      val s = r % L
      chk([crafted(0, 0, s, 0, 0, m), crafted(0, 1, s, 0, 0, m), crafted(0, 2, s, 0, 0, m), crafted(0, 3, s, 1, 0, m),
           crafted(0, 0, s, 1, 0, m), crafted(0, 0, s, 0, 1, m), crafted(0, 0, L - s, 0, 0, m)])
    }
    else {
      val s = w56(key2.v % L)
      val t = w56(L - 1 - s.v)
      [call("pt_encode", [key]), call("pt_mul", [key, s]), call("pt_mul", [key, t]), call("pt_encode", [key2]),
       call("pt_mul", [key2, s]), call("pt_dmul", [key, s, t]), call("pt_dmul", [key, t, s]), call("pt_dmul", [key2, s, t]),
       call("pt_equal", [key, s, key, t]), call("pt_equal", [key, s, key, s])]
    }
  }
  pure def w56(x: int): Bytes = bstr(56, x)
  pure val NCL: int = 10
  action step = {
    nondet k = 0.to(NCL - 1).oneOf()
    nondet i = 0.to(9999).oneOf()
    nondet n0 = 4.to(80).oneOf()
    nondet n1 = 0.to(4000).oneOf()
    // short messages, and in one cluster of three long ones
    val n = if (n1 % 3 == 0) n0 + n1 else n0
    nondet r = 0.to(R57).oneOf()
    nondet r2 = 0.to(R57).oneOf()
    last' = cluster(k, i, n, r, r2)
  }
  // an outcome is what evaluating the call on its own gives
  val inv = last.indices().forall(j =>
    not(Set("object_sign", "object_json", "object_public", "object_text").contains(last[j].op)) implies last[j].out == eval(last[j].op, last[j].a))
}
