// -*- mode: Bluespec; -*-
// C07, C08: verification is total; which error is reported, in which order.
module m_total {
  import cases.* from "./cases"
  var last: List[Call]
  action init = last' = []
  action step = {
    nondet i = 0.to(9999).oneOf()
    nondet c = 0.to(3).oneOf()
    nondet c2 = 0.to(3).oneOf()
    nondet r = 0.to(R57).oneOf()
    nondet r2 = 0.to(R57).oneOf()
    nondet n1 = 0.to(400).oneOf()
    nondet n2 = 0.to(400).oneOf()
    nondet l1 = 0.to(9999).oneOf()
    nondet l2 = 0.to(9999).oneOf()
    nondet mi = 0.to(9999).oneOf()
    val m = mkMsg(mi % NMSG, mi / NMSG, r2)
    any {
      // arbitrary bytes of arbitrary lengths
      last' = check(triple(anyBytes(n1, c, r), anyBytes(n2, c2, r2), m)),
      last' = check(triple(anyBytes(mkLen(l1), c, r), anyBytes(mkLen(l2), c2, r2), m)),
      // a decodable key, then any signature
      last' = check(triple(encPt(smulG(r % L)), anyBytes(mkLen(l2), c2, r2), m)),
      last' = check(triple(mkPoint(i % NPT, i / NPT, r), anyBytes(n2, c2, r2), m)),
      // genuine material cut or extended
      last' = {
        val t = genuine(bstr(57, r), m)
        check(triple(t.pk, resize(t.sig, mkLen(l2), c2, r2), m))
      },
      last' = {
        val t = genuine(bstr(57, r), m)
        check(triple(resize(t.pk, mkLen(l1), c, r2), t.sig, m))
      },
      last' = {
        val t = genuine(bstr(57, r), m)
        check(triple(resize(t.pk, mkLen(l1), c, r2), resize(t.sig, mkLen(l2), c2, r2), m))
      },
      // the all-zero values and their neighbours, against every kind of partner
      last' = {
        val t = genuine(bstr(57, r), m)
        val z1 = zeros(pick([56, 57, 58, 57, 57], l1))
        val z2 = zeros(pick([113, 114, 115, 171, 114], l2))
        val q = if (i % 3 == 0) t.pk else if (i % 3 == 1) bstr(57, 2^455) else anyBytes(mkLen(i), c, r)
        if (c == 0) check(triple(z1, t.sig, m))
        else if (c == 1) check(triple(q, z2, m))
        else if (c == 2) check(triple(z1, z2, m))
        else check(triple(bstr(57, 2^(l1 % 456)), bstr(114, 2^(l2 % 912)), m))
      },
      // every reason to reject at once, in all combinations
      last' = {
        val t = genuine(bstr(57, r), m)
        val pk = pick([0, 1, 2, 3], i)
        val a = if (pk == 0) t.pk else if (pk == 1) mkPoint(9, i, r) else if (pk == 2) btake(t.pk, 56) else zeros(57)
        val rr = if (l1 % 3 == 0) btake(t.sig, 57) else if (l1 % 3 == 1) mkPoint(9, l1, r) else zeros(57)
        val s = if (l2 % 3 == 0) bdrop(t.sig, 57) else if (l2 % 3 == 1) bstr(57, L) else zeros(57)
        check(triple(a, bcat(rr, s), if (c == 0) bcat(m, zeros(1)) else m))
      },
      nondet mc = 0.to(NMUT - 1).oneOf()
      last' = check(mutate(mc, i, r2, genuine(bstr(57, r), m))),
    }
  }
  val inv = last.length() == 0 or {
    val p = last[0].a[0]
    val s = last[0].a[1]
    and {
      last[1].out == withError(last[0].out),
      (p.n == 57 and p.v == 0) implies last[0].out.tag == "InvalidSignatureError",
      (s.n == 114 and s.v == 0) implies last[0].out.tag == "InvalidSignatureError",
      last[0].out.tag == "true" implies (p.n == 57 and s.n >= 114),
      last[0].out.tag != "panic" and last[0].out.tag != "unknown",
    }
  }
}
