//! The internal arithmetic modulo the group order.
use crate::ops::{bytes, words, Outcome};
use libgoldilocks::verif_hooks::scalar as sc;

/// A scalar by value modulo the group order is the specification's business; it is
/// handed over as 56 bytes.
fn scalar(x: &[u32; 14]) -> Outcome {
    let mut out = vec![];
    for w in x {
        out.extend_from_slice(&w.to_le_bytes());
    }
    Outcome { tag: "scalar".into(), data: out }
}

pub fn exec(op: &str, _s: &[usize], a: &[Vec<u8>]) -> Option<Outcome> {
    Some(match op {
        "s_add" => scalar(&sc::add(&words(&a[0]), &words(&a[1]))),
        "s_sub" => scalar(&sc::sub(&words(&a[0]), &words(&a[1]))),
        "s_mul" => scalar(&sc::mul(&words(&a[0]), &words(&a[1]))),
        "s_halve" => scalar(&sc::halve(words(&a[0]))),
        "s_decode_long" => scalar(&sc::decode_long(&a[0])),
        "s_encode" => bytes(&sc::encode(&words(&a[0]))),
        _ => return None,
    })
}
