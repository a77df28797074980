// -*- mode: Bluespec; -*-
// Byte strings as (length, little-endian value).  A byte string b[0..n-1] is
// {n: n, v: sum b[i]*256^i}; this keeps concatenation, slicing and integer
// (de)coding - all of EdDSA's byte handling - a few operations on big integers.
module bytes {
  type Bytes = { n: int, v: int }

  pure def bstr(n: int, v: int): Bytes = { n: n, v: v }
  pure val EMPTY: Bytes = { n: 0, v: 0 }

  pure def pow256(n: int): int = 256^n
  pure def bcat(a: Bytes, b: Bytes): Bytes = { n: a.n + b.n, v: a.v + 256^(a.n) * b.v }
  pure def btake(a: Bytes, k: int): Bytes = if (k >= a.n) a else { n: k, v: a.v % (256^k) }
  pure def bdrop(a: Bytes, k: int): Bytes = if (k >= a.n) EMPTY else { n: a.n - k, v: a.v / (256^k) }
  pure def bslice(a: Bytes, i: int, j: int): Bytes = bdrop(btake(a, j), i)
  pure def byteAt(a: Bytes, i: int): int = (a.v / (256^i)) % 256
  pure def bitAt(a: Bytes, i: int): int = (a.v / (2^i)) % 2
  pure def setByte(a: Bytes, i: int, x: int): Bytes =
    { n: a.n, v: a.v - byteAt(a, i) * 256^i + x * 256^i }
  pure def flipBit(a: Bytes, i: int): Bytes =
    { n: a.n, v: if (bitAt(a, i) == 1) a.v - 2^i else a.v + 2^i }
  pure def zeros(n: int): Bytes = { n: n, v: 0 }
  pure def ones(n: int): Bytes = { n: n, v: 256^n - 1 }
  // n copies of byte x
  pure def rep(n: int, x: int): Bytes = { n: n, v: x * ((256^n - 1) / 255) }
  // A byte string spelled out, first byte first.
  pure def ofList(l: List[int]): Bytes =
    l.foldl(EMPTY, (acc, x) => { n: acc.n + 1, v: acc.v + x * 256^(acc.n) })

  // ---- ASCII hex ------------------------------------------------------------
  pure def hexDigit(d: int): int = if (d < 10) 48 + d else 87 + d
  pure def hexDigitUpper(d: int): int = if (d < 10) 48 + d else 55 + d
  // value of an ASCII hex digit, or -1
  pure def unhexDigit(c: int): int =
    if (c >= 48 and c <= 57) c - 48
    else if (c >= 97 and c <= 102) c - 87
    else if (c >= 65 and c <= 70) c - 55
    else -1

  pure def toHexWith(a: Bytes, f: (int) => int): int =
    range(0, a.n).foldl({ rest: a.v, out: 0, w: 1 }, (s, i) => {
      val x = s.rest % 256
      { rest: s.rest / 256,
        out: s.out + s.w * (f(x / 16) + 256 * f(x % 16)),
        w: s.w * 65536 }
    }).out
  pure def toHex(a: Bytes): Bytes = { n: 2 * a.n, v: toHexWith(a, hexDigit) }
  pure def toHexUpper(a: Bytes): Bytes = { n: 2 * a.n, v: toHexWith(a, hexDigitUpper) }

  type HexResult = { ok: bool, val_: Bytes }
  // Decode a hex string into exactly `want` bytes.
  pure def fromHex(t: Bytes, want: int): HexResult =
    if (t.n != 2 * want) { ok: false, val_: EMPTY }
    else {
      val r = range(0, want).foldl({ rest: t.v, ok: true, out: 0, w: 1 }, (s, i) => {
        val hi = unhexDigit(s.rest % 256)
        val lo = unhexDigit((s.rest / 256) % 256)
        { rest: s.rest / 65536,
          ok: s.ok and hi >= 0 and lo >= 0,
          out: s.out + s.w * (16 * hi + lo),
          w: s.w * 256 }
      })
      if (r.ok) { ok: true, val_: { n: want, v: r.out } } else { ok: false, val_: EMPTY }
    }
}
