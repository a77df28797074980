// -*- mode: Bluespec; -*-
// C04: verdicts on arbitrary well-formed and malformed triples.
module m_verdict {
  import cases.* from "./cases"
  var last: List[Call]
  action init = last' = []
  action step = {
    nondet i = 0.to(9999).oneOf()
    nondet r = 0.to(R57).oneOf()
    nondet r2 = 0.to(R57).oneOf()
    nondet mc = 0.to(NMSG - 1).oneOf()
    nondet mi = 0.to(9999).oneOf()
    nondet mr = 0.to(R57).oneOf()
    nondet ti = 0.to(9999).oneOf()
    any {
      nondet c = 0.to(NCRAFT - 1).oneOf()
      last' = { val t = scCrafted(c, i, r, r2, mkMsg(mc, mi, mr)) check(withTail(ti, r2, t.pk, t)) },
      nondet c = 0.to(NCRAFT - 1).oneOf()
      last' = check(scCrafted(c, i, r, r2, mkMsg(mc, mi, mr))),
      nondet c = 0.to(NMUT - 1).oneOf()
      nondet kc = 0.to(NKEY - 1).oneOf()
      last' = { val t = genuine(mkKey(kc, i, r), mkMsg(mc, mi, mr)) check(withTail(ti, r2, t.pk, mutate(c, i, r2, t))) },
      nondet kc = 0.to(NKEY - 1).oneOf()
      last' = { val t = genuine(mkKey(kc, i, r), if (kc == NKEY - 1) rareMsg(i) else mkMsg(mc, mi, mr)) check(withTail(ti, r2, t.pk, t)) },
      // anything decodable for A and R, S anything below L
      nondet c = 0.to(NPT - 1).oneOf()
      nondet c2 = 0.to(NPT - 1).oneOf()
      last' = check(triple(mkPoint(c, i, r), bcat(mkPoint(c2, mi, r2), bstr(57, mr % L)), mkMsg(mc, mi, mr))),
    }
  }
  // the two verification functions agree
  val inv = last.length() == 0 or last[1].out == withError(last[0].out)
}
