// -*- mode: Bluespec; -*-
// The input space, by class.  Every builder maps (class, small index, random number)
// to an input; machines choose the three nondeterministically, so every class keeps
// being sampled and each sample is different.
module pools {
  import ed448.* from "./ed448"
  import crafted.* from "./crafted"

  pure val R57: int = 256^57 - 1
  pure def pick(l: List[int], i: int): int = l[i % l.length()]

  // ---- keys and messages with extreme intermediate values --------------------------
  pure def rareKey(i: int): Bytes = bstr(57, RARE[i % RARE.length()].key)
  pure def rareMsg(i: int): Bytes = bstr(4, RARE[i % RARE.length()].m)

  // ---- private keys -----------------------------------------------------------
  pure val NKEY: int = 15
  // expanded keys for a given clamped scalar s: the top bit marks the kind, the bits
  // clamping ignores (two lowest, the rest of byte 56) are arbitrary
  pure def keyOfScalar(s: int, noise: int): Bytes =
    bstr(57, s + noise % 4 + 2^448 * ((noise / 4) % 128) + 2^455)
  // clamped scalars next to the multiples of the group order
  pure def edgeScalar(i: int): int = {
    val a = 4 * ((i / 8) % 24)
    val c = i % 8
    if (c == 0) 4 * L + a            // 0, 4, 8, ... mod L: the identity is a public key
    else if (c == 1) 4 * L - 4 - a   // -4, -8, ...
    else if (c == 2) 3 * L + 3 + a   // 3, 7, ...
    else if (c == 3) 3 * L - 1 - a   // -1, -5, ...
    else if (c == 4) 2^447 + a
    else if (c == 5) 2^448 - 4 - a
    else if (c == 6) 2^447 + 2^(2 + (i / 8) % 445)
    else 2^448 - 2^(2 + (i / 8) % 440)
  }
  pure def mkKey(c: int, i: int, r: int): Bytes =
    if (c == 0) bstr(57, r)
    else if (c == 1) bstr(57, r % 2^455)
    else if (c == 2) bstr(57, r % 2^455 + 2^455)
    else if (c == 3) bstr(57, 2^(i % 456))
    else if (c == 4) bstr(57, 256^57 - 1 - 2^(i % 456))
    else if (c == 5) rep(57, i % 256)
    else if (c == 6) bstr(57, r % 256^56 + (i % 256) * 256^56)
    else if (c == 7) keyOfScalar(edgeScalar(i), r)
    else if (c == 8) bstr(57, (r % 256) * 256^(i % 57))
    else if (c == 9) bstr(57, r % (256^(i % 57 + 1)))
    else if (c == 10) bstr(57, r - r % (256^(i % 57)))
    else if (c == 11) bstr(57, (r % 256^56) - (r % 256^56) % 4 + r % 4 + 2^455)
    else if (c == 14) rareKey(i)
    else if (c == 12 and i % 3 == 0) bstr(57, r - r % 256^10 + DOM.v)   // looks like a domain prefix
    else if (c == 12) bstr(57, pick([0, 128 * 256^56, 127 * 256^56, 255 * 256^56, 2^447, 2^455 + 2^447, 3 * 2^447, 2^455 + 3], i))
    // sparse and dense in 32-bit words
    else bstr(57, range(0, 14).foldl({ v: (r / 2^28) % 256 * 2^448, r: r }, (s, j) => {
      val d = s.r % 4
      { v: s.v + 2^(32 * j) * (if (d == 0) 0 else if (d == 1) 2^32 - 1 else if (d == 2) 1 else 2^31), r: s.r / 4 }
    }).v)

  // ---- scalars whose recodings are extreme --------------------------------------
  // A digit every w bits (the densest signed-digit form), all digits equal, of random
  // sign or of random size; long runs of ones or zeros; all below 2^445 < L.
  pure def denseScalar(i: int, r: int): int = {
    val w = 4 + i % 6
    val o = (i / 6) % w
    val c = (i / 60) % 5
    val n = 445 / w
    if (c == 0) range(0, n).foldl(0, (v, j) => v + 2^(w * j + o)) % 2^445
    else if (c == 1) range(0, n).foldl({ v: 0, r: r }, (s, j) =>
      { v: s.v + 2^(w * j) * (2^(w - 2) + (if (s.r % 2 == 0) 1 else 2^(w - 2) - 1)), r: s.r / 2 }).v % 2^445
    else if (c == 2) range(0, n).foldl({ v: 0, r: r }, (s, j) =>
      { v: s.v + 2^(w * j) * (2 * (s.r % 2^(w - 1)) + 1), r: s.r / 2^(w - 1) }).v % 2^445
    else if (c == 3) range(0, 16).foldl({ v: 0, r: r, at: 0 }, (s, j) => {
      val len = s.r % 64 + 1
      { v: if (j % 2 == i % 2) s.v + (2^len - 1) * 2^s.at else s.v, r: s.r / 64, at: s.at + len }
    }).v % 2^445
    else (2^(i % 445 + 1) - 1) * 2^(r % 445) % 2^445
  }

  // ---- messages ---------------------------------------------------------------
  pure def fill(n: int, r: int): Bytes =
    if (n <= 0) EMPTY else bstr(n, ((2 * r + 1)^(n / 56 + 2) / 256) % (256^n))
  pure val EDGE_LEN: List[int] = [0, 1, 2, 31, 32, 33, 55, 56, 57, 58, 63, 64, 65, 68, 69, 70, 113, 114, 115,
    125, 126, 127, 128, 129, 135, 136, 137, 157, 158, 170, 171, 172, 199, 200, 201, 204, 205, 206, 255, 256, 257,
    271, 272, 273, 293, 294, 295, 341, 342, 407, 408, 409, 511, 512, 513, 543, 544, 545, 679, 680, 681]
  pure val LONG_LEN: List[int] = [1000, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 4095, 4096, 4097]
  pure val HUGE_LEN: List[int] = [8191, 8192, 8193, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537]
  pure val MEGA_LEN: List[int] = [131072, 262143, 524288, 1048575, 1048577, 1050000, 1100000, 1234567, 1500000]
  // printable text, lines
  pure def letters(n: int, r: int): Bytes =
    bstr(n, range(0, n).foldl({ v: 0, w: 1, r: r }, (s, j) =>
      { v: s.v + s.w * (if (s.r % 17 == 0) 32 else 97 + s.r % 26), w: 256 * s.w, r: s.r / 13 + 7 * j }).v)
  pure val NMSG: int = 16
  pure def mkMsg(c: int, i: int, r: int): Bytes =
    if (c == 0) fill(i % 300, r)
    else if (c == 1) fill(pick(EDGE_LEN, i), r)
    else if (c == 2) fill(32, r)
    else if (c == 3) zeros(i % 140)
    else if (c == 4) ones(i % 140)
    else if (c == 5) bstr(i % 64 + 8, r % 256^8)                     // trailing zeros
    else if (c == 6) bstr(i % 40 + 8, (r % 256^8) * 256^(i % 40))    // leading zeros
    else if (c == 7) bcat(DOM, fill(i % 40, r))                      // looks like a domain prefix
    else if (c == 8) bstr(1, i % 256)
    else if (c == 9) toHex(fill(i % 40, r))
    else if (c == 10) fill(700 + i % 3400, r)
    else if (c == 11) rep(i % 150, r % 256)                          // one byte over and over
    else if (c == 12) { val t = letters(i % 60, r)  bcat(t, ofList(if (r % 3 == 0) [10] else if (r % 3 == 1) [13, 10] else [0])) }
    else if (c == 13) fill(300 + i % 400, r)
    else if (c == 14) { val h = fill(1 + i % 60, r)  bcat(h, h) }    // the two halves equal
    else bcat(bstr(57, r), fill(i % 60, r / 7))                      // something like a key in front

  // ---- point encodings -----------------------------------------------------------
  pure def torsion(i: int): Pt =
    if (i % 4 == 0) ID else if (i % 4 == 1) T2 else if (i % 4 == 2) T4 else padd(T2, T4)
  pure def encPt(p: Pt): Bytes = bstr(57, encode(p))
  // 16 limbs of 28 bits, each from a few extreme values
  pure def limbPattern(r: int): int =
    range(0, 16).foldl({ v: 0, r: r }, (s, j) => {
      val d = s.r % 8
      { v: s.v + 2^(28 * j) * (if (d == 0) 0 else if (d == 1) 1 else if (d <= 4) 2^28 - 1 else if (d == 5) 2^28 - 2
          else if (d == 6) 2^27 else (s.r / 8) % 2^28), r: s.r / 2^13 }
    }).v
  pure val NPT: int = 16
  pure def mkPoint(c: int, i: int, r: int): Bytes = {
    val sgn = 2^455 * (i % 2)
    if (c == 0) bstr(57, r % 2^448 + sgn)                                   // half of these are points
    else if (c == 1) bstr(57, (i / 2) % 40 + sgn)                           // small y
    else if (c == 2) bstr(57, P - 1 - (i / 2) % 40 + sgn)                   // y near p, below
    else if (c == 3) bstr(57, P + (i / 2) % 60 + sgn)                       // y >= p: not canonical
    else if (c == 4) bstr(57, P + r % (2^224 + 1) + sgn)
    else if (c == 5) bstr(57, 2^448 - 1 - (i / 2) % 40 + sgn)
    else if (c == 6) bstr(57, (2^(28 * ((i / 2) % 16)) + (i / 32) % 5) + sgn)   // limb boundaries
    else if (c == 7) bstr(57, (P - 2^(28 * ((i / 2) % 16)) - (i / 32) % 5) + sgn)
    else if (c == 8) bstr(57, limbPattern(r) + sgn)
    else if (c == 9) bstr(57, pick(NEAR_MISS_Y, i / 2) + sgn)
    else if (c == 10) encPt(padd(smulG(r % L), torsion(i)))                 // every kind of curve point
    else if (c == 11) { // a point with a reserved bit of the last byte set
      val e = encPt(smulG(r % L))
      bstr(57, e.v + 2^(448 + i % 7))
    }
    else if (c == 12) encPt(torsion(i))                                     // small order
    else if (c == 13) bstr(57, torsion(i).y + 2^455)                        // and with the sign bit set
    // the top of the canonical range: upper limbs all ones, the middle limb short
    else if (c == 14) bstr(57, 2^448 - 2^224 - 1 - r % 2^(28 * (i / 2 % 8) + 1) + sgn)
    else bstr(57, 2^448 - 2^224 * (1 + (i / 2) % 3) + r % 2^224 + sgn)
  }
  // the two candidates for the sign of the y of a point on the curve near y0
  pure def onCurveFrom(y0: int): int =
    range(0, 24).foldl(-1, (acc, d) => if (acc >= 0) acc else if (decode(y0 + d).ok) y0 + d else -1)

  // ---- byte strings of any length --------------------------------------------------
  pure def mkLen(i: int): int = pick([0, 1, 2, 31, 32, 55, 56, 57, 58, 59, 63, 64, 100, 112, 113, 114, 115, 116, 128,
    170, 171, 172, 227, 228, 229, 256, 342, 500,
    // right in their last eight or sixteen bits only
    57 + 256, 114 + 256, 171 + 256, 57 + 512, 114 + 1024, if (i % 8 == 0) 57 + 65536 else 57 + 768, if (i % 8 == 1) 114 + 65536 else 114 + 768], i)
}
