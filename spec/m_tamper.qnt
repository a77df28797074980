// -*- mode: Bluespec; -*-
// C05: nothing but the issued triple is accepted.
module m_tamper {
  import cases.* from "./cases"
  var last: List[Call]
  var base: Triple
  action init = all { last' = [], base' = triple(EMPTY, EMPTY, EMPTY) }
  action step = {
    nondet kc = 0.to(NKEY - 1).oneOf()
    nondet ki = 0.to(9999).oneOf()
    nondet kr = 0.to(R57).oneOf()
    nondet mc = 0.to(NMSG - 1).oneOf()
    nondet mi = 0.to(9999).oneOf()
    nondet mr = 0.to(R57).oneOf()
    nondet c = 0.to(NMUT - 1).oneOf()
    nondet c2 = 0.to(NMUT - 1).oneOf()
    nondet i = 0.to(9999).oneOf()
    nondet i2 = 0.to(9999).oneOf()
    nondet r = 0.to(R57).oneOf()
    nondet far = 0.to(99999).oneOf()
    val key = mkKey(kc, ki, kr)
    // the public key must not be of small order: then there is no forgery resistance
    val t = genuine(if (expandKey(key).s % L == 0) bstr(57, kr % 2^455) else key, 
      // one in eight is longer than any buffer a block of the hash would fit in
      if (far % 8 == 0) fill(if (far % 16 == 0) pick(LONG_LEN, mi) else if (far % 160 == 8) pick(HUGE_LEN, mi) else 600 + mi % 3000, mr)
      else if (kc == NKEY - 1 and far % 8 > 1) rareMsg(ki) else mkMsg(mc, mi, mr))
    all {
      base' = t,
      last' = callAs("verify", [t.pk, t.sig, t.m], oTag("true"))
        .cons(check(withTail(far, r, t.pk, mutate(c, i, r, t)))).concat(check(mutate(c2, i2, r, t)))
        // the end and the beginning of the message
        .concat(if (t.m.n == 0) [] else check(t.with("m", flipBit(t.m, 8 * (t.m.n - 1 - far / 16 % min2(t.m.n, 140)) + i % 8))))
        // the issued one again, and after it a change
        .concat(check(withTail(far / 8, r, t.pk, t))).concat(check(withTail(far, r, t.pk, mutate(c, i2, r, t))))
    }
  }
  pure def min2(a: int, b: int): int = if (a < b) a else b
  pure def cons(h: Call, l: List[Call]): List[Call] = [h].concat(l)
  val inv = last.indices().forall(j =>
    (last[j].out.tag == "true" or last[j].out.tag == "ok") implies
      same(triple(last[j].a[0], last[j].a[1], last[j].a[2]), base))
}
