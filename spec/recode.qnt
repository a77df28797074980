// -*- mode: Bluespec; -*-
// Scalar recodings, as the library computes them.
module recode {
  type Digit = { power: int, addend: int }
  pure def twoAdic(n: int): int =
    range(0, 32).foldl({ n: n, r: 0, on: n != 0 }, (s, i) =>
      if (s.on and s.n % 2 == 0) { n: s.n / 2, r: s.r + 1, on: true } else s.with("on", false)).r

  // recode_wnaf: 16 bits at a time with a carry into the next 16; most significant digit
  // first.  words16: the number of 16-bit pieces of a scalar.
  pure def wnaf(k: int, tb: int, words16: int): List[Digit] = {
    val w1 = 2^(tb + 1)
    range(1, words16 + 2).foldl({ cur: k % 2^16, out: [] }, (s, w) => {
      val filled = s.cur + (if (w < words16) ((k / 2^(16 * w)) % 2^16) * 2^16 else 0)
      val r = range(0, 17).foldl({ cur: filled, out: s.out }, (z, j) =>
        if (z.cur % 2^16 == 0) z
        else {
          val pos = twoAdic(z.cur)
          val odd = z.cur / 2^pos
          val delta = odd % w1 - (if ((odd / w1) % 2 == 1) w1 else 0)
          { cur: z.cur - delta * 2^pos, out: [{ power: pos + 16 * (w - 1), addend: delta }].concat(z.out) }
        })
      { cur: r.cur / 2^16, out: r.out }
    }).out
  }
  pure def valueOf(ds: List[Digit]): int = ds.foldl(0, (s, d) => s + d.addend * 2^(d.power))
  // odd digits within the table, powers far enough apart, the first one positive
  pure def proper(ds: List[Digit], tb: int): bool = and {
    ds.length() == 0 or ds[0].addend > 0,
    ds.indices().forall(i => and {
      ds[i].addend % 2 != 0, -(2^(tb + 1)) < ds[i].addend, ds[i].addend < 2^(tb + 1), ds[i].power >= 0,
      i > 0 implies ds[i - 1].power >= ds[i].power + tb + 1,
    }),
  }
  // the room recode_wnaf has, the end marker included
  pure def room(bits: int, tb: int): int = bits / (tb + 1) + 3

  // Signed odd digits of a scalar modulo q from `n` windows of w bits: of (k + 2^(wn) - 1)/2
  // modulo q, a window with value b stands for 2b - (2^w - 1).
  pure def adjusted(k: int, q: int, bits: int): int = ((k + 2^bits - 1) * ((q + 1) / 2)) % q
  pure def windows(k: int, q: int, w: int, n: int): List[int] = {
    val x = adjusted(k, q, w * n)
    range(0, n).foldl([], (l, j) => l.append(2 * ((x / 2^(w * (n - 1 - j))) % 2^w) - (2^w - 1)))
  }
  // precomputed_scalar_mul: n combs of t teeth, s apart.  The digit of comb j at column i
  // has bit i + s(k + jt) as its bit k; its value is the signed sum over its teeth.
  pure def combBit(x: int, i: int, j: int, k: int, t: int, s: int): int = (x / 2^(i + s * (k + j * t))) % 2
  pure def combDigit(x: int, i: int, j: int, t: int, s: int): int =
    range(0, t).foldl(0, (acc, k) => acc + combBit(x, i, j, k, t, s) * 2^k)
  // the table entry (index, sign) the library looks up, and the multiple it stands for:
  // the top tooth positive, the others by the bits of the index
  pure def combEntry(tab: int, t: int): { index: int, sign: int } = {
    val top = tab / 2^(t - 1)
    val low = tab % 2^(t - 1)
    if (top == 1) { index: low, sign: 1 } else { index: 2^(t - 1) - 1 - low, sign: -1 }
  }
  pure def combTable(j: int, index: int, t: int, s: int): int =
    2^(s * (t - 1 + j * t)) + range(0, t - 1).foldl(0, (acc, k) =>
      acc + (2 * ((index / 2^k) % 2) - 1) * 2^(s * (k + j * t)))
  pure def combValue(k: int, q: int, n: int, t: int, s: int): int = {
    val x = adjusted(k, q, n * t * s)
    range(0, s).foldl(0, (acc, i) => {
      val col = s - 1 - i
      2 * acc + range(0, n).foldl(0, (a, j) => {
        val e = combEntry(combDigit(x, col, j, t, s), t)
        a + e.sign * combTable(j, e.index, t, s)
      })
    })
  }
}
