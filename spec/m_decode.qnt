// -*- mode: Bluespec; -*-
// C06: exactly the canonical encodings of curve points, and the canonical integers below
// the group order, decode.
module m_decode {
  import cases.* from "./cases"
  var last: List[Call]
  action init = last' = []
  action step = {
    nondet c = 0.to(NPT - 1).oneOf()
    nondet i = 0.to(9999).oneOf()
    nondet r = 0.to(R57).oneOf()
    any {
      last' = scDecodePk(mkPoint(c, i, r)),
      last' = scDecodePk(mkPoint(c, i, r)),
      last' = scDecodeR(mkPoint(c, i, r)),
      // a curve point and the same y with the other sign, and with y + p where that fits
      nondet y0 = 0.to(2^224).oneOf()
      last' = {
        val y = onCurveFrom(if (i % 2 == 0) y0 else i)
        scDecodePk(bstr(57, y)).concat(scDecodePk(bstr(57, y + 2^455)))
          .concat(scDecodePk(bstr(57, y + P))).concat(scDecodePk(bstr(57, y + P + 2^455)))
      },
      // a genuine public key and one changed byte
      nondet b = 0.to(56).oneOf()
      nondet x = 0.to(255).oneOf()
      last' = {
        val e = encPt(smulG(r % L))
        scDecodePk(e).concat(scDecodePk(setByte(e, b, x)))
      },
      nondet cs = 0.to(NSR - 1).oneOf()
      last' = scDecodeS(mkSRange(cs, i, r)),
      nondet cs = 0.to(NSR - 1).oneOf()
      last' = scDecodeS(mkSRange(cs, i, r)),
      // wrong lengths never decode
      nondet n = Set(0, 1, 55, 56, 58, 59, 114).oneOf()
      last' = scDecodePk(resize(encPt(smulG(r % L)), n, 0, r)),
    }
  }
  val inv = last.indices().forall(j => {
    val e = last[j].a[0]
    val d = decode(e.v)
    (last[j].op != "decodes_s" and e.n == 57) implies
      (d.ok implies (encode(d.pt) == e.v and onCurve(d.pt)))
  })
}
