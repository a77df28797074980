// -*- mode: Bluespec; -*-
// C03: signatures, byte for byte.
module m_sign {
  import cases.* from "./cases"
  var last: List[Call]
  action init = last' = []
  action step = {
    nondet kc = 0.to(NKEY - 1).oneOf()
    nondet ki = 0.to(9999).oneOf()
    nondet kr = 0.to(R57).oneOf()
    nondet mc = 0.to(NMSG - 1).oneOf()
    nondet mi = 0.to(9999).oneOf()
    nondet mr = 0.to(R57).oneOf()
    any {
      last' = scSign(mkKey(kc, ki, kr), mkMsg(mc, mi, mr)),
      last' = scSign(mkKey(kc, ki, kr), mkMsg(mc, mi, mr)),
      last' = scSign(mkKey(kc, ki, kr), mkMsg(mc, mi, mr)),
      last' = scSignPrivate(mkKey(kc, ki, kr), mkMsg(mc, mi, mr)),
      last' = scSign(rareKey(ki), rareMsg(ki)),
      last' = { val k = mkKey(kc, ki, kr) scSign(k, ownMsg(k, mi, mkMsg(mc, mi, mr))) },
      nondet nr = 0.to(R57).oneOf()
      nondet nc = 0.to(NKEY - 1).oneOf()
      last' = {
        val k = mkKey(kc, ki, kr)
        scSecretNonce(k, if (mi % 4 > 0) mkKey(nc, mi, nr) else if (mi % 8 == 0) k else flipBit(k, mi % 456), mkMsg(mc, mi, mr))
      }
    }
  }
  val inv = last.length() == 0 or {
    val sig = last[0].out.data
    sig.n == 114 and bdrop(sig, 57).v < L and decode(btake(sig, 57).v).ok
  }
}
