//! Point arithmetic through the type goldilocks::point_by_secret returns.
use crate::ops::{boolean, bytes, words, Outcome};
use libgoldilocks::goldilocks::point_by_secret;

pub fn exec(op: &str, _s: &[usize], a: &[Vec<u8>]) -> Option<Outcome> {
    let p = |b: &[u8]| point_by_secret(&b.try_into().unwrap());
    Some(match op {
        "pt_encode" => bytes(&p(&a[0]).eddsa_like_encode()),
        "pt_mul" => bytes(&p(&a[0]).point_scalar_mul(&words(&a[1])).eddsa_like_encode()),
        "pt_dmul" => bytes(
            &p(&a[0]).point_double_scalamul_non_secret(&words(&a[1]), &words(&a[2])).eddsa_like_encode(),
        ),
        "pt_equal" => {
            let x = p(&a[0]).point_scalar_mul(&words(&a[1]));
            let y = p(&a[2]).point_scalar_mul(&words(&a[3]));
            let (e, f) = (x.mod_equal(&y), y.mod_equal(&x));
            if e != f {
                crate::ops::tag("split")
            } else {
                boolean(e)
            }
        }
        "pt_on_curve" => boolean(p(&a[0]).is_on_curve() && p(&a[0]).point_scalar_mul(&words(&a[1])).is_on_curve()),
        "pt_dmul_on_curve" => boolean(p(&a[0]).point_double_scalamul_non_secret(&words(&a[1]), &words(&a[2])).is_on_curve()),
        _ => return None,
    })
}
