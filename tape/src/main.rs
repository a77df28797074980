//! Key generation on a random source the specification controls (m_keygen.qnt).
//! `replay FILE`: as the harness does.
use libgoldilocks::goldilocks as g;
use libgoldilocks::SigningKey;
use std::io::Write;
#[path = "../../harness/src/wiring.rs"]
mod wiring;

const SEED: u64 = 0x5eed;

fn generate(how: usize) -> [u8; 57] {
    match how {
        0 => g::ed448_generate_key(),
        1 => SigningKey::random(&mut rand::thread_rng()).to_bytes()[..57].try_into().unwrap(),
        _ => SigningKey::random(&mut rand::rngs::OsRng).to_bytes()[..57].try_into().unwrap(),
    }
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

/// Does a key depend on what was generated before it?
fn remembers(how: usize) -> bool {
    let mut after = |s: u64| {
        tape_source::rewind(s, &[]);
        generate(how);
        tape_source::rewind(SEED, &[]);
        generate(how)
    };
    let first = after(1);
    (2..6).any(|s| after(s) != first)
}
/// Are keys portions of the source, whatever their order?
fn copies(how: usize) -> bool {
    tape_source::rewind(SEED, &[]);
    let keys: Vec<[u8; 57]> = (0..64).map(|_| generate(how)).collect();
    let tape: Vec<u8> = (0..tape_source::drawn()).map(|i| tape_source::at(SEED, i)).collect();
    let mut seen = std::collections::HashSet::new();
    for w in tape.windows(3) {
        seen.insert([w[0], w[1], w[2]]);
        seen.insert([w[2], w[1], w[0]]);
    }
    // the first keys may hold what was left over
    keys.iter().skip(8).all(|k| (0..7).all(|i| k[8 * i..8 * i + 9].windows(3).any(|w| seen.contains(w))))
}

fn main() {
    let path = std::env::args().nth(2).expect("replay FILE");
    let wires: Vec<_> = (0..3)
        .map(|how| {
            wiring::learn(
                &mut |put| {
                    tape_source::rewind(SEED, put);
                    (generate(how), tape_source::drawn())
                },
                &|t| tape_source::at(SEED, t),
            )
        })
        .collect();
    for (how, w) in wires.iter().enumerate() {
        match w {
            Ok(w) => println!("WIRING {} drawn={}", how, w.drawn),
            Err(e) => println!("WIRING {} {}", how, e),
        }
    }
    // how much is drawn over many keys, whatever the pattern
    let mean: Vec<(usize, usize)> = (0..3)
        .map(|how| {
            tape_source::rewind(SEED, &[]);
            for _ in 0..64 {
                generate(how);
            }
            (tape_source::drawn() / 64, tape_source::drawn_from_system() / 64)
        })
        .collect();
    // a generator with a memory must at least hand on what it draws
    let mixes: Vec<bool> = (0..3).map(|how| wires[how].is_err() && remembers(how) && !copies(how)).collect();
    let (mut n, mut skipped, mut bad) = (0, 0, 0);
    for (line, l) in std::fs::read_to_string(path).unwrap().lines().enumerate() {
        let f: Vec<&str> = l.split('|').collect();
        if f[0] != "gen_offered" {
            continue;
        }
        let how: usize = f[1].parse().unwrap();
        let keys: Vec<Vec<u8>> = f[2].split(',').map(unhex).collect();
        let got = match &wires[how] {
            Ok(w) => {
                let mut put = vec![];
                for (i, k) in keys.iter().enumerate() {
                    put.extend(w.offer(k, i * w.drawn));
                }
                tape_source::rewind(SEED, &put);
                let ks: Vec<u8> = keys.iter().flat_map(|_| generate(how)).collect();
                ("bytes".to_string(), hex(&ks))
            }
            // the output of a generator seeded by the operating system, or of one that
            // does draw as much as it gives: not decided here
            Err(e)
                if !mixes[how]
                    && (e.starts_with("expanded") || e.starts_with("unsteady"))
                    && (mean[how].0 >= 57 || mean[how].1 >= 32) =>
            {
                skipped += 1;
                continue;
            }
            Err(e) => (format!("not-from-the-source:{}", e.replace(' ', ":")), String::new()),
        };
        n += 1;
        if got.0 != f[3] || got.1 != f[4] {
            bad += 1;
            if bad <= 20 {
                println!("MISMATCH {} {} {}", line, got.0, got.1);
            }
        }
    }
    println!("DONE {} {} {}", n, skipped, bad);
    let _ = std::io::stdout().flush();
}
