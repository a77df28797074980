//! Recodings, by what they are for: digits a table holds, with the value of the scalar.
use crate::ops::{boolean, words, Outcome};
use libgoldilocks::verif_hooks::extended_point as ep;

/// The fields are private; their Debug form is not.  None if it is another form.
fn field(text: &str, name: &str) -> Option<i64> {
    let at = text.find(&format!("{}: ", name))? + name.len() + 2;
    let rest = &text[at..];
    let end = rest.find(|c: char| c != '-' && !c.is_ascii_digit()).unwrap_or(rest.len());
    rest[..end].parse().ok()
}

pub fn exec(op: &str, s: &[usize], a: &[Vec<u8>]) -> Option<Outcome> {
    if op != "wnaf" {
        return None;
    }
    let tb = s[0];
    let mut control = vec![ep::SmvtControl::new(); 200];
    ep::recode_wnaf(&mut control, &words(&a[0]), tb);
    let mut digits = vec![];
    for c in &control {
        let text = format!("{:?}", c);
        let (p, d) = (field(&text, "power")?, field(&text, "addend")?);
        if p < 0 || d == 0 {
            break;
        }
        digits.push((p, d));
    }
    // the sum, in words with room for a sign
    let mut acc = [0i128; 16];
    let mut ok = true;
    let down = digits.windows(2).all(|w| w[0].0 > w[1].0);
    let up = digits.windows(2).all(|w| w[0].0 < w[1].0);
    for (p, d) in digits.iter() {
        ok &= d % 2 != 0 && d.abs() < 1 << (tb + 1) && *p < 448 && (down || up);
        if !ok {
            break;
        }
        acc[(*p / 32) as usize] += (*d as i128) << (p % 32);
    }
    let mut carry = 0i128;
    let want = words(&a[0]);
    for (i, x) in acc.iter().enumerate() {
        let t = x + carry;
        let low = t.rem_euclid(1 << 32);
        carry = (t - low) >> 32;
        ok &= low == want.get(i).copied().unwrap_or(0) as i128;
    }
    Some(boolean(ok && carry == 0))
}
