// -*- mode: Bluespec; -*-
// C16: the hex readers.
module m_hex {
  import cases.* from "./cases"
  import text.* from "./text"
  var last: List[Call]
  action init = last' = []
  action step = {
    nondet c = 0.to(NHEX - 1).oneOf()
    nondet x = 0.to(99999).oneOf()
    nondet r = 0.to(R57).oneOf()
    any {
      last' = [call("hex_message", [mkHex(c, x, r, 32)])],
      last' = [call("hex_key", [mkHex(c, x, r, 57)])],
      last' = [call("hex_signature", [mkHex(c, x, r, 114)])],
    }
  }
  val inv = last.length() == 0 or {
    val t = last[0].a[0]
    last[0].out.tag == "bytes" implies (t.n == 2 * last[0].out.data.n)
  }
}
