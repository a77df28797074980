// -*- mode: Bluespec; -*-
// C03: very long messages.
module m_sign_huge {
  import cases.* from "./cases"
  var last: List[Call]
  action init = last' = []
  action step = {
    nondet kr = 0.to(R57).oneOf()
    nondet mi = 0.to(9999).oneOf()
    nondet mr = 0.to(R57).oneOf()
    last' = trip(bstr(57, kr), fill(pick(HUGE_LEN, mi), mr)).concat(other(bstr(57, kr), fill(pick(HUGE_LEN, mi), mr), mr))
  }
  pure def trip(key: Bytes, m: Bytes): List[Call] = {
    val sig = sign(key, m)
    [ callAs("sign", [key, m], oBytes(sig)), callAs("verify", [derivePublic(key), sig, m], oTag("true")) ]
  }
  // and changed in one bit, or at an end
  pure def other(key: Bytes, m: Bytes, x: int): List[Call] =
    [ call("verify", [derivePublic(key), sign(key, m),
        if (x % 4 == 0) btake(m, m.n - 1) else if (x % 4 == 1) bcat(m, zeros(1)) else flipBit(m, (x / 4) % (8 * m.n))]) ]
  // about a mebibyte
  action stepMega = {
    nondet kr = 0.to(R57).oneOf()
    nondet mi = 0.to(9999).oneOf()
    nondet d = 0.to(299).oneOf()
    nondet mr = 0.to(R57).oneOf()
    val m = fill(pick(MEGA_LEN, mi) + (if (mi % 2 == 0) d else 0), mr)
    // as a seed and as an expanded key
    last' = trip(bstr(57, kr % 2^455), m).concat(trip(bstr(57, kr % 2^455 + 2^455), m))
  }
  val inv = true
}
