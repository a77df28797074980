//! Point arithmetic on decoded points, through encodings.
use crate::ops::{boolean, bytes, tag, words, Outcome};
use libgoldilocks::verif_hooks::extended_point as ep;

pub fn exec(op: &str, _s: &[usize], a: &[Vec<u8>]) -> Option<Outcome> {
    Some(match op {
        // decoded points, through encodings
        "p_decode" => match ep::eddsa_like_decode(&a[0]) {
            Ok(p) => bytes(&p.eddsa_like_encode()),
            Err(_) => tag("err"),
        },
        "p_mul" => match ep::eddsa_like_decode(&a[0]) {
            Ok(p) => bytes(&p.point_scalar_mul(&words(&a[1])).eddsa_like_encode()),
            Err(_) => tag("err"),
        },
        "p_dmul" => match ep::eddsa_like_decode(&a[0]) {
            Ok(p) => bytes(&p.point_double_scalamul_non_secret(&words(&a[1]), &words(&a[2])).eddsa_like_encode()),
            Err(_) => tag("err"),
        },
        "p_equal" => match (ep::eddsa_like_decode(&a[0]), ep::eddsa_like_decode(&a[1])) {
            (Ok(p), Ok(q)) => boolean(p.mod_equal(&q)),
            _ => tag("err"),
        },
        "p_base_mul" => bytes(&ep::precomputed_scalar_mul(words(&a[0])).eddsa_like_encode()),
        _ => return None,
    })
}
