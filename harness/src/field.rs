//! The internal field arithmetic, by value (never by representation).
use crate::ops::{boolean, bytes, Outcome};
use libgoldilocks::verif_hooks::bignumber as f;

fn limbs(b: &[u8]) -> [u32; 16] {
    let mut w = [0u32; 16];
    for i in 0..16 {
        w[i] = u32::from_le_bytes(b[4 * i..4 * i + 4].try_into().unwrap());
    }
    w
}

/// The canonical value of 16 limbs of radix 2^28, modulo p = 2^448 - 2^224 - 1.
pub fn value(x: &[u32; 16]) -> Vec<u8> {
    // carry into radix 2^28 digits, folding 2^448 = 2^224 + 1
    let mut d = [0i64; 16];
    for i in 0..16 {
        d[i] = x[i] as i64;
    }
    for _ in 0..4 {
        let mut c = 0i64;
        for i in 0..16 {
            let t = d[i] + c;
            d[i] = t & 0xfffffff;
            c = t >> 28;
        }
        d[0] += c;
        d[8] += c;
    }
    // now 0 <= value < 2^448 after the last fold; subtract p if value >= p
    let p = |i: usize| if i == 8 { 0xffffffei64 } else { 0xfffffffi64 };
    let mut t = [0i64; 16];
    let mut b = 0i64;
    for i in 0..16 {
        let v = d[i] - p(i) + b;
        t[i] = v & 0xfffffff;
        b = v >> 28;
    }
    if b == 0 {
        d = t;
    }
    let mut out = vec![0u8; 56];
    for i in 0..16 {
        for k in 0..28 {
            if (d[i] >> k) & 1 == 1 {
                let bit = 28 * i + k;
                out[bit / 8] |= 1 << (bit % 8);
            }
        }
    }
    out
}

fn field(x: &[u32; 16]) -> Outcome {
    bytes(&value(x))
}

pub fn exec(op: &str, s: &[usize], a: &[Vec<u8>]) -> Option<Outcome> {
    Some(match op {
        "f_mul" => field(&f::mul(&limbs(&a[0]), &limbs(&a[1]))),
        "f_square" => field(&f::square(&limbs(&a[0]))),
        "f_add" => field(&f::add(&limbs(&a[0]), &limbs(&a[1]))),
        "f_sub" => field(&f::sub(&limbs(&a[0]), &limbs(&a[1]))),
        "f_neg" => field(&f::neg(&limbs(&a[0]))),
        "f_sub_bias" => field(&f::sub_x_bias(&limbs(&a[0]), &limbs(&a[1]), &(s[0] as u32))),
        "f_mul_const" => field(&f::mul_with_signed_curve_constant(&limbs(&a[0]), &-(s[0] as i64))),
        "f_mul_word" => field(&f::mul_w(&limbs(&a[0]), &(s[0] as u64))),
        "f_invert" => field(&f::invert(&limbs(&a[0]))),
        "f_isr_squared" => {
            let r = f::isr(&limbs(&a[0]));
            field(&f::mul(&r, &r))
        }
        "f_strong_reduce" => field(&f::strong_reduce(limbs(&a[0]))),
        "f_serialize" => bytes(&f::dsa_like_serialize(&limbs(&a[0]))),
        "f_parity" => boolean(f::low_bit(&limbs(&a[0])) != 0),
        "f_equal" => boolean(f::decaf_equal(&limbs(&a[0]), &limbs(&a[1])) != 0),
        _ => return None,
    })
}
