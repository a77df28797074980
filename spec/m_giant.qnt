// -*- mode: Bluespec; -*-
// C04, C07, C08: verification of inputs too long to write down.  The public key is of
// small order, so 4kA is the identity whatever the challenge is, and the verdict is the
// same for every message; what follows byte 114 of a signature never matters; and a key
// of any length other than 57 is refused as one of 58 bytes is.  Arguments are given by
// their beginning and their length (s: lengths of key, signature and message, and the
// byte the message continues with; key and signature continue with zeros).
module m_giant {
  import cases.* from "./cases"
  var last: List[Call]
  action init = last' = []

  pure def stretched(b: Bytes, n: int): Bytes = if (n > b.n) bcat(b, zeros(1)) else b
  pure def oBig(t: Triple, nPk: int, nSig: int): Outcome =
    oVerify(stretched(t.pk, nPk), stretched(t.sig, nSig), t.m)
  pure def big(t: Triple, nPk: int, nSig: int, nMsg: int, x: int): List[Call] = {
    val o = oBig(t, nPk, nSig)
    val s = [nPk, nSig, nMsg, x]
    [ { op: "big_verify", a: [t.pk, t.sig, EMPTY], s: s, out: o },
      { op: "big_verify_err", a: [t.pk, t.sig, EMPTY], s: s, out: withError(o) } ]
  }
  pure def base(c: int, i: int, r: int, m: Bytes): Triple = {
    val ti = i % 4
    val tj = (i / 4) % 4
    if (c < 3) crafted(0, ti, r, tj, 0, m)
    else if (c == 3) crafted(0, ti, r, tj, 1 + i % 7, m)
    else if (c == 4) crafted(0, ti, 0, 1 + tj % 3, 0, m)
    else if (c == 5) crafted(0, ti, r, tj, 0, m).with("pk", mkPoint(9, i, r))
    else if (c == 6) withS(crafted(0, ti, r, tj, 0, m), L + i % 5)
    else withR(crafted(0, ti, r, tj, 0, m), mkPoint(9, i, r))
  }
  action step = {
    nondet c = 0.to(7).oneOf()
    nondet i = 0.to(9999).oneOf()
    nondet r = 0.to(R57).oneOf()
    nondet d = 0.to(299).oneOf()
    nondet l = 0.to(9999).oneOf()
    val nSig = if (l % 3 == 0) 114 else if (l % 3 == 1) 171 else 114 + 2^(7 + l % 15) + d
    val nPk = if (l % 7 == 0) 57 + 2^(l / 7 % 20) else 57
    last' = big(base(c, i, r, EMPTY), nPk, nSig, 2^(12 + i % 9) + d - 150, l % 256)
  }
  // tens of mebibytes
  action stepGiant = {
    nondet c = 0.to(3).oneOf()
    nondet i = 0.to(9999).oneOf()
    nondet r = 0.to(R57).oneOf()
    nondet d = 0.to(299).oneOf()
    nondet l = 0.to(9999).oneOf()
    last' = big(base(c, i, r, EMPTY), 57, if (l % 2 == 0) 114 else 114 + 2^(20 + l % 5), 2^(23 + i % 4) + d - 150, l % 256)
  }
  // lengths whose low 32 bits are right, or too small
  action stepBeyond = {
    nondet c = 0.to(3).oneOf()
    nondet i = 0.to(9999).oneOf()
    nondet r = 0.to(R57).oneOf()
    nondet l = 0.to(113).oneOf()
    val t = base(c, i, r, EMPTY)
    last' = big(t, 57, 2^32 + l, 32, 7).concat(big(t, 2^32 + 57, 114, 32, 7)).concat(big(t, 57, 2^32 + 114, 32, 7))
  }
  // A message of more than sixteen mebibytes, hashed in full: accepted for the message and
  // not for one a byte longer or shorter (short of a collision).
  action stepHashed = {
    nondet a = 1.to(L - 1).oneOf()
    nondet r = 1.to(L - 1).oneOf()
    nondet x = 1.to(R57).oneOf()
    nondet d = 1.to(999).oneOf()
    val n = 2^24 + d
    val t = crafted(a, 0, r, 0, 0, { n: n, v: x })
    last' = [(n, "true"), (n + 1, "false"), (n - 1, "false")].foldl([], (l, c) =>
      l.append({ op: "big_verify", a: [t.pk, t.sig, bstr(57, x)], s: [57, 114, c._1, 0], out: oTag(c._2) }))
  }
  action stepSigned = {
    nondet k = 1.to(R57).oneOf()
    nondet x = 1.to(R57).oneOf()
    nondet d = 1.to(999).oneOf()
    val n = 2^24 + d
    last' = [{ op: "big_sign", a: [bstr(57, k), bstr(57, x)], s: [57, n, 0, 0], out: oBytes(sign(bstr(57, k), { n: n, v: x })) }]
  }
  // the verdict is that of any short message
  val inv = last.length() == 0 or last[0].op == "big_sign" or last[0].a[2].n > 0 or {
    val k = last[0]
    val pk = stretched(k.a[0], k.s[0])
    val sig = stretched(k.a[1], k.s[1])
    and {
      last[1].out == withError(k.out),
      oVerify(pk, sig, bstr(1, k.s[3])) == k.out,
      oVerify(if (k.s[0] > 57) bcat(pk, zeros(5)) else pk, if (k.s[1] > 114) bcat(sig, zeros(60)) else sig, rep(40, k.s[3])) == k.out,
    }
  }
}
