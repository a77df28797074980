//! Symbolic behaviours (m_symbolic.qnt): keys, messages and signatures are names; each
//! repetition replaces them by fresh values.
use crate::ops::{accepted, quiet, tag};
use crate::{hex, load, Rng};
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, Signature, SigningKey};

const NK: usize = 3;
const NM: usize = 3;

/// The group order, little endian.
const ORDER: [u8; 57] = [
    0xf3, 0x44, 0x58, 0xab, 0x92, 0xc2, 0x78, 0x23, 0x55, 0x8f, 0xc5, 0x8d, 0x72, 0xc2, 0x6c, 0x21, 0x90, 0x36, 0xd6,
    0xae, 0x49, 0xdb, 0x4e, 0xc4, 0xe9, 0x23, 0xca, 0x7c, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff,
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x3f, 0x00,
];
fn add(a: &mut [u8], b: &[u8]) {
    let mut c = 0u16;
    for i in 0..a.len() {
        let t = a[i] as u16 + b[i] as u16 + c;
        a[i] = t as u8;
        c = t >> 8;
    }
}
fn sub_from(a: &mut [u8], b: &[u8]) {
    // a := b - a
    let mut c = 0i16;
    for i in 0..a.len() {
        let t = b[i] as i16 - a[i] as i16 - c;
        a[i] = t as u8;
        c = (t < 0) as i16;
    }
}

struct World {
    keys: Vec<[u8; 57]>,
    msgs: Vec<Vec<u8>>,
    sigs: Vec<[u8; 114]>,
}

/// A key that is another one (as far as the library can tell): a bit that matters changed.
fn near(k: &[u8; 57], r: &mut Rng) -> [u8; 57] {
    let mut x = *k;
    let bit = 2 + r.below(440);
    x[bit / 8] ^= 1 << (bit % 8);
    x
}
fn sparse(r: &mut Rng) -> [u8; 57] {
    let mut x = [0u8; 57];
    for _ in 0..1 + r.below(4) {
        x[r.below(57)] = r.next() as u8;
    }
    x
}

fn world(r: &mut Rng, giant: bool) -> World {
    let mut keys: Vec<[u8; 57]> = (0..NK).map(|_| r.bytes(57).try_into().unwrap()).collect();
    match r.below(8) {
        0 => keys[1] = near(&keys[0], r),
        1 => keys[0] = [r.next() as u8; 57],
        2 => keys[0] = sparse(r),
        _ => {}
    }
    let base = match r.below(96) / 2 {
        // rarely, messages of up to 8 MiB
        _ if giant => (1usize << (24 + r.below(3))) + r.below(300) - 150,
        0 if r.below(3) == 0 => (1usize << (17 + r.below(7))) + r.below(300) - 150,
        0..=11 => r.below(200),
        12..=23 => 32,
        24..=35 => 1 + r.below(3),
        36..=44 => 57 + r.below(1500),
        45 => (1usize << (10 + r.below(7))).wrapping_add(r.below(5)) - 2,
        46 => 1500 + r.below(70000),
        _ => 136 * (1 + r.below(40)) - r.below(140).min(135),
    };
    let m0 = r.bytes(base);
    // the messages are distinct: of the same length, a prefix, or unrelated
    let mut m1 = m0.clone();
    if base > 0 && r.below(2) == 0 {
        let i = r.below(base);
        m1[i] ^= 1 << r.below(8);
    } else {
        m1.push(r.next() as u8);
    }
    let mut m2 = r.bytes(base + 2);
    m2[0] = if base > 0 { m0[0] ^ 1 } else { 0 };
    World { keys, msgs: vec![m0, m1, m2], sigs: vec![[0; 114]; 8] }
}

/// Sign through one of the equivalent entry points.
fn sign(k: &[u8; 57], m: &[u8], how: usize) -> [u8; 114] {
    if how == 0 {
        return g::ed448_sign(k, m);
    }
    let r: Result<Signature, libgoldilocks::errors::LibgoldilockErrors> = SigningKey::from_slice(k).sign_prehash(m);
    r.expect("sign_prehash failed").as_slice()[..114].try_into().unwrap()
}

fn check(w: &World, r: &mut Rng, j: usize, k: usize, m: usize, t: usize) -> bool {
    let mut pk = g::ed448_derive_public(&w.keys[k]).to_vec();
    let mut sig = w.sigs[j].to_vec();
    let mut msg = w.msgs[m].clone();
    match t {
        0 => {}
        1 => {
            let n = r.below(80);
            sig.extend(r.bytes(n))
        }
        2 => sig[r.below(57)] ^= 1 << r.below(8),
        3 => sig[57 + r.below(57)] ^= 1 << r.below(8),
        4 => pk[r.below(57)] ^= 1 << r.below(8),
        5 => {
            if msg.is_empty() {
                msg.push(0)
            } else {
                let i = r.below(msg.len());
                msg[i] ^= 1 << r.below(8)
            }
        }
        6 => msg.push(if r.below(2) == 0 { 0 } else { r.next() as u8 }),
        7 => {
            if msg.pop().is_none() {
                msg.push(1)
            }
        }
        8 => {
            let n = 1 + r.below(3);
            for _ in 0..n {
                add(&mut sig[57..], &ORDER)
            }
        }
        9 => sub_from(&mut sig[57..], &ORDER),
        10 => sig[56] ^= 0x80,
        11 => pk[56] ^= 0x80,
        12 => sig[113] ^= 1 + r.below(255) as u8,
        13 => {
            let n = r.below(114);
            sig.truncate(n)
        }
        14 => {
            let i = r.below(114);
            sig[i] = sig[i].wrapping_add(1 + r.below(255) as u8)
        }
        _ => {
            let i = r.below(57);
            pk[i] = pk[i].wrapping_add(1 + r.below(255) as u8)
        }
    }
    accepted(&pk, &sig, &msg)
}

/// Is any single-bit change of a part accepted?
fn sweep(w: &World, r: &mut Rng, j: usize, k: usize, m: usize, p: usize) -> bool {
    let mut pk = g::ed448_derive_public(&w.keys[k]).to_vec();
    let mut sig = w.sigs[j].to_vec();
    let mut msg = w.msgs[m].clone();
    let bits: Vec<usize> = match p {
        0 => (0..456).collect(),
        1 => (456..912).collect(),
        2 => (0..456).collect(),
        _ => {
            let n = 8 * msg.len();
            // all of the ends and some of the middle; fewer where hashing takes long
            let e = if n > 1 << 20 { 8 } else { 256 };
            let mut v: Vec<usize> = (0..n.min(e)).chain(n.saturating_sub(e)..n).collect();
            if n > 0 {
                v.extend((0..e).map(|_| r.below(n)));
            }
            v
        }
    };
    let step = if msg.len() > 1 << 17 { 1 + (msg.len() >> 17) } else { 1 };
    for b in bits.into_iter().step_by(if p == 3 { 1 } else { step }) {
        crate::BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let part = match p {
            0 | 1 => &mut sig,
            2 => &mut pk,
            _ => &mut msg,
        };
        part[b / 8] ^= 1 << (b % 8);
        if g::ed448_verify(&pk, &sig, &msg) == Ok(true) {
            return true;
        }
        let part = match p {
            0 | 1 => &mut sig,
            2 => &mut pk,
            _ => &mut msg,
        };
        part[b / 8] ^= 1 << (b % 8);
    }
    false
}
/// Is the signature accepted whatever follows it?
fn tails(w: &World, r: &mut Rng, j: usize, k: usize, m: usize) -> bool {
    let pk = g::ed448_derive_public(&w.keys[k]);
    (0..6).all(|i| {
        let n = if i == 0 { 57 } else { r.below(400) };
        let mut sig = w.sigs[j].to_vec();
        sig.extend(r.bytes(n));
        crate::ops::both(&pk, &sig, &w.msgs[m]).tag == "true"
    })
}

pub fn run(path: &str, reps: usize, seed: u64) {
    let calls = load(path);
    let (mut n, mut bad) = (0u64, 0);
    let mut traces: Vec<Vec<usize>> = vec![];
    for (i, (_, c)) in calls.iter().enumerate() {
        if c.op == "reset" {
            traces.push(vec![]);
        } else {
            traces.last_mut().expect("harness: no reset").push(i);
        }
    }
    crate::watchdog();
    for rep in 0..reps {
        for (ti, t) in traces.iter().enumerate() {
            let mut r = Rng(seed.wrapping_mul(0x1000003).wrapping_add((rep * traces.len() + ti) as u64).wrapping_mul(0x9e3779b97f4a7c15));
            let mut w = world(&mut r, rep == 0 && ti == 1);
            for &i in t {
                let (line, c) = &calls[i];
                let s = &c.s;
                crate::BEAT.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                crate::CURRENT.store(*line, std::sync::atomic::Ordering::Relaxed);
                let o = quiet(|| match c.op.as_str() {
                    "y_sign" => {
                        w.sigs[s[2]] = sign(&w.keys[s[0]], &w.msgs[s[1]], r.below(2));
                        tag("ok")
                    }
                    "y_check" => crate::ops::boolean(check(&w, &mut r, s[0], s[1], s[2], s[3])),
                    "y_again" => crate::ops::boolean(sign(&w.keys[s[0]], &w.msgs[s[1]], r.below(2)) == w.sigs[s[2]]),
                    "y_sweep" => crate::ops::boolean(c.out.tag != "any" && (rep + ti) % 24 == 0 && sweep(&w, &mut r, s[0], s[1], s[2], s[3])),
                    "y_tails" => crate::ops::boolean(tails(&w, &mut r, s[0], s[1], s[2])),
                    "y_splice" => {
                        let sig = [&w.sigs[s[0]][..57], &w.sigs[s[1]][57..]].concat();
                        crate::ops::boolean(accepted(&g::ed448_derive_public(&w.keys[s[2]]), &sig, &w.msgs[s[3]]))
                    }
                    _ => panic!("harness: unknown {}", c.op),
                });
                n += 1;
                if c.out.tag != "any" && o.tag != c.out.tag {
                    bad += 1;
                    if bad <= 10 {
                        println!("SYM {} {} rep={} seed={} trace={} keys={} msgs={}", line, o.tag, rep, seed, ti,
                            w.keys.iter().map(|k| hex(k)).collect::<Vec<_>>().join(","),
                            w.msgs.iter().map(|k| if k.len() > 4096 { format!("({} bytes)", k.len()) } else { hex(k) }).collect::<Vec<_>>().join(","));
                    }
                    break;
                }
            }
        }
    }
    println!("DONE {} 0 {}", n, bad);
}
