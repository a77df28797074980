// -*- mode: Bluespec; -*-
// Hex and JSON texts: how keys are written, every way of getting it wrong, and what a
// reader must make of it.
module text {
  import ed448.* from "./ed448"
  import pools.* from "./pools"

  pure def ch(c: int): Bytes = bstr(1, c)
  pure val QUOTE: Bytes = ch(34)
  pure def quoted(t: Bytes): Bytes = bcat(QUOTE, bcat(t, QUOTE))
  // mixed case, by the bits of r
  pure def toHexMixed(a: Bytes, r: int): Bytes =
    bstr(2 * a.n, range(0, 2 * a.n).foldl({ out: 0, w: 1, r: r, lo: toHex(a).v, up: toHexUpper(a).v }, (s, i) =>
      { out: s.out + s.w * (if (s.r % 2 == 1) s.up % 256 else s.lo % 256), w: 256 * s.w, r: s.r / 2,
        lo: s.lo / 256, up: s.up / 256 }).out)
  // two-byte UTF-8 characters: e acute, sharp s
  pure val WIDE: List[int] = [195 + 256 * 169, 195 + 256 * 159, 217 + 256 * 160]
  // three-byte ones: the full-width digit nine, letter a and letter A
  pure val WIDE3: List[int] = [239 + 256 * (188 + 256 * 153), 239 + 256 * (189 + 256 * 129), 239 + 256 * (188 + 256 * 161)]

  pure val NHEX: int = 26
  pure def mkHex(c: int, i: int, r: int, n: int): Bytes = {
    val body = fill(n, r)
    val h = toHex(body)
    if (c <= 1) h
    else if (c == 2) toHexUpper(body)
    else if (c == 3) toHexMixed(body, r / 8)
    else if (c == 4) btake(h, 2 * n - 1)
    else if (c == 5) bcat(h, ch(48))
    else if (c == 6) btake(h, 2 * n - 2)
    else if (c == 7) bcat(h, bstr(2, 48 + 256 * 48))
    else if (c == 8) EMPTY
    else if (c == 9) setByte(h, i % (2 * n), (i / (2 * n)) % 128)   // any ASCII character
    else if (c == 10) bcat(ofList([48, 120]), h)
    else if (c == 11) bcat(ofList([48, 120]), bdrop(h, 2))
    else if (c == 12) bcat(h, ch(10))
    else if (c == 13) bcat(ch(32), btake(h, 2 * n - 1))
    else if (c == 14) { // a wide character over two digits
      val k = 2 * (i % n)
      bcat(btake(h, k), bcat(bstr(2, pick(WIDE, i)), bdrop(h, k + 2)))
    }
    else if (c == 15) bcat(h, h)
    else if (c == 16) btake(h, i % (2 * n))
    // as many characters as it takes, but not as many bytes
    else if (c == 17) bcat(btake(h, i % (2 * n)), bcat(bstr(2, pick(WIDE, i)), bdrop(h, i % (2 * n) + 1)))
    else if (c == 18) { // full-width digits
      val k = i % (2 * n - 3)
      bcat(btake(h, k), bcat(bstr(3, pick(WIDE3, i)), bdrop(h, k + (if (r % 2 == 0) 1 else 3))))
    }
    // a length that is right in its last eight or sixteen bits only
    else if (c == 19) bcat(h, rep(if (i % 50 == 0) 65536 else 256 * (1 + i % 3), 48))
    // two characters between the digits
    else if (c == 20) { val k = 2 * (i % n)  bcat(btake(h, k), bcat(bstr(1, pick([32, 58, 95, 45, 10, 9, 44], i)), btake(bdrop(h, k), 2 * n - 1 - k))) }
    // digits of other lengths: those of other values, and any
    else if (c == 21) toHex(fill(pick([32, 57, 114, 171, 228, 31, 33, 56, 58, 59, 64, 89, 112, 113, 115, 116, 128, 146, 203, 285], i), r))
    else if (c == 22) btake(toHex(fill(1 + (i / 2) % 300, r)), if (i % 2 == 0) 700 else 1 + (i / 2) % 600)
    // white space around
    else if (c == 23) {
      val w = pick([32, 9, 10, 13, 11, 12, 0, 13 + 256 * 10, 32 + 256 * 32], i)
      val b = bstr(if (w < 256) 1 else 2, w)
      if (i / 9 % 3 == 0) bcat(b, h) else if (i / 9 % 3 == 1) bcat(h, b) else bcat(b, bcat(h, b))
    }
    // marks in front, behind or around: 0X, backslash x, #, x, quotes, h, L, a byte order mark, a minus
    else if (c == 24) {
      val k = i % 12
      if (k == 0) bcat(ofList([48, 88]), h) else if (k == 1) bcat(ofList([92, 120]), h) else if (k == 2) bcat(ch(35), h)
      else if (k == 3) bcat(ch(120), h) else if (k == 4) quoted(h) else if (k == 5) bcat(ch(39), bcat(h, ch(39)))
      else if (k == 6) bcat(h, ch(104)) else if (k == 7) bcat(h, ch(76)) else if (k == 8) bcat(ofList([239, 187, 191]), h)
      else if (k == 9) bcat(ch(45), h) else if (k == 10) bcat(ch(43), btake(h, 2 * n - 1)) else bcat(h, ch(61))
    }
    else rep(2 * n, pick([48, 102, 70, 57, 65, 97, 103, 58], i))
  }

  // ---- JSON --------------------------------------------------------------------
  // The string a JSON text denotes, if it is a string (the characters here are ASCII
  // or pass through unchanged).
  type JsonStr = { ok: bool, str_: Bytes }
  pure def isWs(c: int): bool = c == 32 or c == 9 or c == 10 or c == 13
  type JSt = { st: int, n: int, v: int, u: int }
  // st: 0 before, 1 inside, 2 after a backslash, 3..6 hex digits of \u, 7 after, 9 error
  pure def jput(s: JSt, c: int): JSt = { st: 1, n: s.n + 1, v: s.v + c * 256^(s.n), u: 0 }
  pure def jbad(s: JSt): JSt = { st: 9, n: 0, v: 0, u: 0 }
  pure def jstep(s: JSt, c: int): JSt =
    if (s.st == 9) s
    else if (s.st == 0) (if (isWs(c)) s else if (c == 34) { st: 1, n: 0, v: 0, u: 0 } else jbad(s))
    else if (s.st == 7) (if (isWs(c)) s else jbad(s))
    else if (s.st == 1)
      (if (c == 34) s.with("st", 7) else if (c == 92) s.with("st", 2) else if (c < 32) jbad(s) else jput(s, c))
    else if (s.st == 2)
      (if (c == 117) { st: 3, n: s.n, v: s.v, u: 0 }
       else if (c == 34 or c == 92 or c == 47) jput(s, c)
       else if (c == 98) jput(s, 8)
       else if (c == 102) jput(s, 12)
       else if (c == 110) jput(s, 10)
       else if (c == 114) jput(s, 13)
       else if (c == 116) jput(s, 9)
       else jbad(s))
    else {
      val d = unhexDigit(c)
      val u = 16 * s.u + d
      if (d < 0) jbad(s)
      else if (s.st < 6) { st: s.st + 1, n: s.n, v: s.v, u: u }
      else if (u < 128) jput(s, u)
      else jput(s, 255) // not ASCII: no hex digit either way
    }
  pure def parseJson(t: Bytes): JsonStr = {
    val r = range(0, t.n).foldl({ v: t.v, s: { st: 0, n: 0, v: 0, u: 0 } }, (z, i) =>
      { v: z.v / 256, s: jstep(z.s, z.v % 256) }).s
    if (r.st == 7) { ok: true, str_: bstr(r.n, r.v) } else { ok: false, str_: EMPTY }
  }
  // What a key deserializes to.
  pure def keyOfJson(t: Bytes): HexResult = {
    val j = parseJson(t)
    if (j.ok) fromHex(j.str_, 57) else { ok: false, val_: EMPTY }
  }

  pure def escapeAt(h: Bytes, k: int): Bytes = {
    val c = byteAt(h, k)
    val e = ofList([92, 117, 48, 48, hexDigit(c / 16), hexDigit(c % 16)])
    bcat(btake(h, k), bcat(e, bdrop(h, k + 1)))
  }
  pure val NJSON: int = 16
  pure def mkJson(c: int, i: int, r: int): Bytes = {
    val h = mkHex(i % NHEX, i / NHEX, r, 57)
    val good = mkHex(pick([0, 1, 2, 3], i), i, r, 57)
    if (c <= 1) quoted(good)
    else if (c <= 4) quoted(h)
    else if (c == 5) bcat(rep(i % 3, 32), bcat(quoted(good), rep((i / 3) % 3, pick([10, 9, 13, 32], i))))
    else if (c == 6) quoted(escapeAt(good, i % 114))
    else if (c == 7) good                                               // not quoted
    else if (c == 8) bcat(quoted(good), quoted(good))
    else if (c == 9) bcat(quoted(good), ch(pick([120, 44, 93, 0], i)))
    else if (c == 10) bcat(ch(91), bcat(quoted(good), ch(93)))          // ["..."]
    else if (c == 11) pick2([ofList([110, 117, 108, 108]), ofList([116, 114, 117, 101]), ofList([52, 50]), ofList([123, 125]),
      ofList([91, 93]), EMPTY, ofList([34]), ofList([34, 34]), ofList([45, 49]), ofList([34, 92, 34])], i)
    else if (c == 12) btake(quoted(good), i % 116)
    else if (c == 13) // [1,1,...]: 57 numbers
      bcat(ch(91), bcat(bstr(113, 49 * ((256^114 - 1) / (256^2 - 1)) + 256 * 44 * ((256^112 - 1) / (256^2 - 1))), ch(93)))
    else if (c == 14) bcat(ofList([39]), bcat(good, ofList([39])))      // single quotes
    else bcat(QUOTE, bcat(good, bcat(ofList([92, pick([110, 47, 120, 48], i)]), QUOTE)))
  }
  pure def pick2(l: List[Bytes], i: int): Bytes = l[i % l.length()]
}
