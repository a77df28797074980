// -*- mode: Bluespec; -*-
// SHAKE256 (FIPS 202) from first principles: Keccak-f[1600] on 25 lanes of 64 bits.
// Quint has no bitwise operators, so XOR and AND-NOT are byte tables, eight lookups a
// lane.  (tools/qc.py computes xor64 and andn64 with the machine's own operators, the
// way TLC overrides its Bitwise module; the cross-checks with quint run compare the two.)
module shake256 {
  import bytes.* from "./bytes"

  // Operators on nibbles first (256 entries, bit by bit), then on bytes.
  pure def nibbleOp(i: int, f: (int, int) => int): int = {
    val a = i / 16
    val b = i % 16
    f(a % 2, b % 2) + 2 * f((a / 2) % 2, (b / 2) % 2)
      + 4 * f((a / 4) % 2, (b / 4) % 2) + 8 * f(a / 8, b / 8)
  }
  pure val XOR4: List[int] = range(0, 256).foldl([], (l, i) => l.append(nibbleOp(i, (x, y) => (x + y) % 2)))
  pure val ANDN4: List[int] = range(0, 256).foldl([], (l, i) => l.append(nibbleOp(i, (x, y) => (1 - x) * y)))
  // XOR[256a + b] = a xor b;  ANDN[256a + b] = (not a) and b
  pure val XOR: List[int] = range(0, 65536).foldl([], (l, i) => {
    val a = i / 256
    val b = i % 256
    l.append(16 * XOR4[16 * (a / 16) + b / 16] + XOR4[16 * (a % 16) + b % 16])
  })
  pure val ANDN: List[int] = range(0, 65536).foldl([], (l, i) => {
    val a = i / 256
    val b = i % 256
    l.append(16 * ANDN4[16 * (a / 16) + b / 16] + ANDN4[16 * (a % 16) + b % 16])
  })

  pure def xor8(a: int, b: int): int = XOR[256 * a + b]
  pure val W8: List[int] = range(0, 8).foldl([], (l, i) => l.append(256^i))
  pure def xor64(a: int, b: int): int =
    W8.foldl(0, (s, w) => s + w * XOR[256 * ((a / w) % 256) + (b / w) % 256])
  pure def andn64(a: int, b: int): int =
    W8.foldl(0, (s, w) => s + w * ANDN[256 * ((a / w) % 256) + (b / w) % 256])
  pure val W64: int = 2^64

  // Round constants, generated by the degree-8 LFSR of FIPS 202 (algorithm 5).
  pure val RC_BITS: List[int] =
    range(0, 168).foldl({ r: 1, out: [] }, (s, i) => {
      val t = 2 * s.r
      { r: if (t >= 256) xor8(t % 256, 113) else t, out: s.out.append(s.r % 2) }
    }).out
  // bit 2^j - 1 of the constant of round i is rc(7i + j)
  pure def roundConstant(i: int): int =
    range(0, 7).foldl(0, (acc, j) => acc + RC_BITS[7 * i + j] * 2^(2^j - 1))
  pure val RC: List[int] = range(0, 24).foldl([], (l, i) => l.append(roundConstant(i)))

  // rho offsets r[x + 5y] and, for pi, the lane each output lane comes from.
  pure val RHO: List[int] =
    range(0, 24).foldl({ x: 1, y: 0, off: range(0, 25).foldl([], (l, i) => l.append(0)) }, (s, t) => {
      { x: s.y, y: (2 * s.x + 3 * s.y) % 5,
        off: s.off.replaceAt(s.x + 5 * s.y, (((t + 1) * (t + 2)) / 2) % 64) }
    }).off
  // B[y, 2x+3y] = rot(A[x,y]), i.e. output lane (X,Y) takes input lane ((X+3Y)%5, X).
  pure val PI_SRC: List[int] =
    range(0, 25).foldl([], (l, i) => {
      val X = i % 5
      val Y = i / 5
      l.append((X + 3 * Y) % 5 + 5 * X)
    })

  // Index plans of the step mappings.
  pure val I5: List[int] = range(0, 5)
  // theta, D[x] = C[x-1] ^ rotl(C[x+1], 1)
  pure val THETA: List[{ a: int, b: int }] = I5.foldl([], (l, x) => l.append({ a: (x + 4) % 5, b: (x + 1) % 5 }))
  // theta's addition, rho and pi: output lane i is rotl(A[src] ^ D[src % 5], r), w = 2^r
  pure val RHO_PI: List[{ src: int, col: int, w: int }] = range(0, 25).foldl([], (l, i) =>
    l.append({ src: PI_SRC[i], col: PI_SRC[i] % 5, w: 2^(RHO[PI_SRC[i]]) }))
  // chi: v[i] = p[i] ^ (~p[j] & p[k]) along the row
  pure val CHI: List[{ i: int, j: int, k: int }] = range(0, 25).foldl([], (l, i) => {
    val row = 5 * (i / 5)
    l.append({ i: i, j: row + (i + 1) % 5, k: row + (i + 2) % 5 })
  })

  pure def round(a: List[int], rc: int): List[int] = {
    val c = I5.foldl([], (l, x) =>
      l.append(xor64(xor64(xor64(xor64(a[x], a[x + 5]), a[x + 10]), a[x + 15]), a[x + 20])))
    val d = THETA.foldl([], (l, q) => l.append(xor64(c[q.a], (2 * c[q.b]) % W64 + (2 * c[q.b]) / W64)))
    val p = RHO_PI.foldl([], (l, q) => {
      val t = q.w * xor64(a[q.src], d[q.col])
      l.append(t % W64 + t / W64)
    })
    CHI.foldl([], (l, q) => {
      val t = xor64(p[q.i], andn64(p[q.j], p[q.k]))
      l.append(if (q.i == 0) xor64(t, rc) else t)
    })
  }

  pure def keccakF(a: List[int]): List[int] = RC.foldl(a, (s, rc) => round(s, rc))

  pure val RATE: int = 136
  pure val RATE_LANES: List[int] = range(0, 17)
  pure val ZERO_STATE: List[int] = range(0, 25).foldl([], (l, i) => l.append(0))

  // pad10*1 with the SHAKE suffix 1111: 0x1f ... 0x80
  pure def pad(m: Bytes): Bytes = {
    val blocks = m.n / RATE + 1
    val total = blocks * RATE
    { n: total, v: m.v + 31 * 256^(m.n) + 128 * 256^(total - 1) }
  }

  // one block, as an integer of 17 lanes
  pure def absorbBlock(lanes: List[int], block: int): List[int] =
    keccakF(RATE_LANES.foldl({ b: block, st: [] }, (z, j) =>
      { b: z.b / W64, st: z.st.append(xor64(lanes[j], z.b % W64)) }).st.concat(lanes.slice(17, 25)))

  // k blocks, in groups of GROUP: peeling blocks off a long message one by one would copy
  // the rest of it every time
  pure val GROUP: int = 128
  pure def absorbBlocks(lanes: List[int], count: int, x: int): List[int] =
    range(0, count).foldl({ rest: x, st: lanes }, (s, i) =>
      { rest: s.rest / 256^RATE, st: absorbBlock(s.st, s.rest % 256^RATE) }).st
  pure def absorb(m: Bytes): List[int] = {
    val padded = pad(m)
    val total = padded.n / RATE
    range(0, (total + GROUP - 1) / GROUP).foldl({ rest: padded.v, st: ZERO_STATE }, (s, i) =>
      { rest: s.rest / 256^(RATE * GROUP),
        st: absorbBlocks(s.st, if (total - GROUP * i < GROUP) total - GROUP * i else GROUP, s.rest % 256^(RATE * GROUP)) }).st
  }

  // The first k <= 136 bytes of SHAKE256(m) (Ed448 never needs more than 114).
  pure def shake(m: Bytes, k: int): Bytes = {
    val lanes = absorb(m)
    { n: k, v: RATE_LANES.foldl({ v: 0, w: 1 }, (s, i) => { v: s.v + s.w * lanes[i], w: W64 * s.w }).v % 256^k }
  }
}
