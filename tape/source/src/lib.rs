//! The random source of m_keygen.qnt: a tape of bytes chosen by the environment.  The
//! copies of `rand` and `getrandom` beside this crate take everything they hand out from it.
use std::sync::Mutex;

struct Tape {
    seed: u64,
    system: usize,
    at: usize,
    put: Vec<(usize, u8)>,
}
static TAPE: Mutex<Tape> = Mutex::new(Tape { seed: 0, system: 0, at: 0, put: Vec::new() });

fn value(seed: u64, i: usize) -> u8 {
    let mut z = seed.wrapping_add((i as u64 + 1).wrapping_mul(0x9e3779b97f4a7c15));
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    (z ^ (z >> 31)) as u8
}

/// Rewind; the tape is pseudorandom but for the bytes in `put`.
pub fn rewind(seed: u64, put: &[(usize, u8)]) {
    let mut t = TAPE.lock().unwrap();
    t.seed = seed;
    t.at = 0;
    t.system = 0;
    t.put = put.to_vec();
}
/// How many bytes were drawn since.
pub fn drawn() -> usize {
    TAPE.lock().unwrap().at
}
/// How many of them by way of the operating system's source, from which generators are seeded.
pub fn drawn_from_system() -> usize {
    TAPE.lock().unwrap().system
}
/// What the tape says at a position.
pub fn at(seed: u64, i: usize) -> u8 {
    value(seed, i)
}
pub fn fill(dest: &mut [u8]) {
    let mut t = TAPE.lock().unwrap();
    for d in dest {
        let i = t.at;
        *d = t.put.iter().find(|p| p.0 == i).map(|p| p.1).unwrap_or_else(|| value(t.seed, i));
        t.at += 1;
    }
}
pub fn fill_from_system(dest: &mut [u8]) {
    TAPE.lock().unwrap().system += dest.len();
    fill(dest)
}
