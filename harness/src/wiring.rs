//! How a generated key hangs on its random source.  The specification only says that the
//! source determines all of the key, byte for byte; in what order, in which portions or
//! byte order the library reads the source is its own business and is found out here.

/// A generator run on a source that is fixed but for the given bytes: the key and the
/// number of bytes drawn.
pub type Gen<'a> = dyn FnMut(&[(usize, u8)]) -> ([u8; 57], usize) + 'a;

pub struct Wiring {
    /// position in the source and, for each value of the key byte, the source byte giving it
    pub byte: Vec<(usize, [u8; 256])>,
    pub drawn: usize,
}

pub fn learn(gen: &mut Gen, value: &dyn Fn(usize) -> u8) -> Result<Wiring, String> {
    let (base, drawn) = gen(&[]);
    for _ in 0..3 {
        let (k, n) = gen(&[]);
        if (k, n) != (base, drawn) {
            return Err(format!("unsteady drawn={}", drawn));
        }
    }
    let mut found: Vec<Option<usize>> = vec![None; 57];
    let (mut flips, mut basis) = (0u64, vec![]);
    for t in 0..drawn.min(4096) {
        let (k, _) = gen(&[(t, value(t) ^ 0xff)]);
        let d: Vec<usize> = (0..57).filter(|&j| k[j] != base[j]).collect();
        if d.len() == 1 && found[d[0]].is_none() {
            found[d[0]] = Some(t);
        }
    }
    let mut byte = vec![];
    for j in 0..57 {
        let t = match found[j] {
            Some(t) => t,
            None => break,
        };
        let (mut inv, mut seen) = ([0u8; 256], [false; 256]);
        for v in 0..=255u8 {
            let (k, _) = gen(&[(t, v)]);
            if (0..57).any(|i| i != j && k[i] != base[i]) {
                break;
            }
            inv[k[j] as usize] = v;
            seen[k[j] as usize] = true;
        }
        if seen.iter().all(|x| *x) {
            byte.push((t, inv));
        } else {
            break;
        }
    }
    if byte.len() == 57 {
        return Ok(Wiring { byte, drawn });
    }
    // Not byte for byte.  Is the key the output of a generator seeded with enough of the source?
    for t in 0..drawn.min(4096) {
        for b in 0..8 {
            let (k, _) = gen(&[(t, value(t) ^ (1 << b))]);
            let mut x: Vec<u8> = (0..57).map(|j| k[j] ^ base[j]).collect();
            flips += x.iter().map(|v| v.count_ones() as u64).sum::<u64>();
            reduce(&mut basis, &mut x);
        }
    }
    let mean = flips / (8 * drawn.min(4096)).max(1) as u64;
    Err(format!("{} drawn={} rank={} flips={} byte={}", if basis.len() >= 248 && (180..=276).contains(&mean) { "expanded" } else { "fixed" },
        drawn, basis.len(), mean, byte.len()))
}
fn top(x: &[u8]) -> Option<usize> {
    (0..x.len()).rev().find(|&i| x[i] != 0).map(|i| 8 * i + 7 - x[i].leading_zeros() as usize)
}
fn reduce(basis: &mut Vec<(usize, Vec<u8>)>, x: &mut Vec<u8>) {
    while let Some(t) = top(x) {
        match basis.iter().find(|b| b.0 == t) {
            Some(b) => x.iter_mut().zip(&b.1).for_each(|(a, c)| *a ^= c),
            None => {
                basis.push((t, x.clone()));
                return;
            }
        }
    }
}
impl Wiring {
    /// What to put on the source so that it offers this key.
    pub fn offer(&self, key: &[u8], from: usize) -> Vec<(usize, u8)> {
        self.byte.iter().enumerate().map(|(j, (t, inv))| (from + t, inv[key[j] as usize])).collect()
    }
}
