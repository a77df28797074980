//! Replays behaviours of the specification into the library.
//!   replay FILE                     one call per line, in order
//!   conc FILE THREADS ROUNDS SEED   the same calls, many times, from many threads
//!   contend FILE THREADS MS SEED    MS milliseconds of each operation, a few calls of it
//!                                   at a time, from many threads at once
//!   shuffle FILE ROUNDS SEED        the calls of each behaviour in many other orders
//!   sym FILE REPS SEED              symbolic behaviours, concretised REPS times
//!   fresh FILE THREADS              each call in a process of its own
//!   keygen N WINDOWS THREADS        statistics over N keys from ed448_generate_key
//! A line of FILE is  op|slots|args|tag|data  with hex arguments; a call whose outcome is
//! not the specified one is reported as  MISMATCH line tag data.
use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

#[cfg(feature = "field")]
mod field;
#[cfg(feature = "group")]
mod group;
mod ops;
mod plain;
#[cfg(feature = "points")]
mod points;
#[cfg(feature = "recode")]
mod recode;
#[cfg(feature = "scalar")]
mod scalar;
mod sym;
mod wiring;

use ops::{Outcome, Slots};

#[derive(Clone)]
pub struct Call {
    pub op: String,
    pub s: Vec<usize>,
    pub a: Vec<Vec<u8>>,
    pub out: Outcome,
}

pub fn unhex(s: &str) -> Vec<u8> {
    let b = s.as_bytes();
    let d = |c: u8| (c as char).to_digit(16).expect("harness: bad hex") as u8;
    b.chunks(2).map(|p| d(p[0]) * 16 + d(p[1])).collect()
}
pub fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}

fn parse(line: &str) -> Option<Call> {
    if line.is_empty() || line.starts_with('#') {
        return None;
    }
    let f: Vec<&str> = line.split('|').collect();
    let list = |x: &str| -> Vec<String> {
        if x == "-" {
            vec![]
        } else {
            x.split(',').map(|y| y.to_string()).collect()
        }
    };
    Some(Call {
        op: f[0].into(),
        s: list(f[1]).iter().map(|x| x.parse().unwrap()).collect(),
        a: list(f[2]).iter().map(|x| unhex(x)).collect(),
        out: Outcome { tag: f[3].into(), data: unhex(f[4]) },
    })
}

fn run(c: &Call, st: &mut Slots) -> Outcome {
    catch_unwind(AssertUnwindSafe(|| ops::exec(&c.op, &c.s, &c.a, st))).unwrap_or_else(|e| {
        let m = e
            .downcast_ref::<String>()
            .cloned()
            .or_else(|| e.downcast_ref::<&str>().map(|x| x.to_string()))
            .unwrap_or_default();
        // an earlier call failed to make the object: that call is reported
        if m == ops::NO {
            return ops::tag("skipped");
        }
        if m.starts_with("harness:") {
            println!("BROKEN {} {}", c.op, m);
            std::process::exit(4);
        }
        ops::tag("panic")
    })
}

pub static CURRENT: AtomicUsize = AtomicUsize::new(0);
pub static BEAT: AtomicU64 = AtomicU64::new(0);

/// A call that does not return within the limit is reported, then the process ends.
pub fn watchdog() {
    let limit: u64 = std::env::var("HANG_SECONDS").ok().and_then(|x| x.parse().ok()).unwrap_or(60);
    std::thread::spawn(move || {
        let mut seen = BEAT.load(Ordering::Relaxed);
        let mut since = std::time::Instant::now();
        loop {
            std::thread::sleep(std::time::Duration::from_millis(500));
            let b = BEAT.load(Ordering::Relaxed);
            if b != seen {
                seen = b;
                since = std::time::Instant::now();
            } else if since.elapsed().as_secs() > limit {
                println!("HANG {}", CURRENT.load(Ordering::Relaxed));
                let _ = std::io::stdout().flush();
                std::process::exit(3);
            }
        }
    });
}

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.next() as u8).collect()
    }
}

pub fn load(path: &str) -> Vec<(usize, Call)> {
    std::fs::read_to_string(path)
        .expect("harness: cannot read calls")
        .lines()
        .enumerate()
        .filter_map(|(i, l)| parse(l).map(|c| (i, c)))
        .collect()
}

fn replay(path: &str) {
    let progress = std::env::var("PROGRESS").is_ok();
    let calls = load(path);
    let mut st = Slots::default();
    let (mut n, mut skipped, mut bad) = (0, 0, 0);
    watchdog();
    for (i, c) in &calls {
        if c.op == "reset" {
            st = Slots::default();
            continue;
        }
        CURRENT.store(*i, Ordering::Relaxed);
        BEAT.fetch_add(1, Ordering::Relaxed);
        if progress {
            println!("AT {}", i);
            let _ = std::io::stdout().flush();
        }
        let o = run(c, &mut st);
        if o.tag == "skipped" {
            skipped += 1;
            continue;
        }
        n += 1;
        if o.tag == "scalar" {
            // compared modulo the group order by the specification
            println!("VALUE {} {}", i, hex(&o.data));
        } else if c.out.tag != "any" && o != c.out {
            bad += 1;
            if bad <= 50 {
                println!("MISMATCH {} {} {}", i, o.tag, hex(&o.data));
            }
        }
    }
    println!("DONE {} {} {}", n, skipped, bad);
}

fn conc(path: &str, threads: usize, rounds: usize, seed: u64) {
    let calls = Arc::new(load(path));
    let bad = Arc::new(Mutex::new(Vec::<String>::new()));
    let n = Arc::new(AtomicU64::new(0));
    let mut hs = vec![];
    watchdog();
    // the first calls of the process are made at the same moment
    let start = Arc::new(std::sync::Barrier::new(threads));
    for t in 0..threads {
        let (calls, bad, n, start) = (calls.clone(), bad.clone(), n.clone(), start.clone());
        hs.push(std::thread::spawn(move || {
            let mut rng = Rng(seed * 1000 + t as u64);
            let mut st = Slots::default();
            let mut place = Place::default();
            // a few rounds only: all threads at one place of the list
            let mut k = if rounds < 50 { Rng(seed).below(calls.len()) } else { 0 };
            start.wait();
            for _ in 0..rounds {
                // mostly close to the previous call (near-identical calls follow each
                // other), sometimes anywhere
                let i = match rng.below(16) {
                    0..=5 => {
                        k = (k + 1) % calls.len();
                        k
                    }
                    6..=14 => (k + rng.below(24)) % calls.len(),
                    _ => {
                        k = rng.below(calls.len());
                        k
                    }
                };
                let (line, c) = &calls[i];
                BEAT.fetch_add(1, Ordering::Relaxed);
                place.place(c);
                let o = run(&place.0, &mut st);
                if o.tag == "skipped" {
                    continue;
                }
                n.fetch_add(1, Ordering::Relaxed);
                if c.out.tag != "any" && o != c.out {
                    let mut b = bad.lock().unwrap();
                    if b.len() < 20 {
                        b.push(format!("MISMATCH {} {} {}", line, o.tag, hex(&o.data)));
                    }
                }
            }
        }));
    }
    for h in hs {
        if h.join().is_err() {
            println!("MISMATCH 0 thread-died -");
        }
    }
    for b in bad.lock().unwrap().iter() {
        println!("{}", b);
    }
    println!("DONE {} 0 {}", n.load(Ordering::Relaxed), bad.lock().unwrap().len());
}

/// Two to four calls of one operation at a time, each thread making each a few times in a
/// row: what one call leaves behind meets the others again and again.
fn contend(path: &str, threads: usize, ms: u64, seed: u64) {
    let calls = load(path);
    let mut by_op: std::collections::BTreeMap<String, Vec<usize>> = Default::default();
    for (i, (_, c)) in calls.iter().enumerate() {
        let short = c.a.iter().map(|x| x.len()).sum::<usize>() < 700;
        if c.op != "reset" && c.out.tag != "any" && c.s.is_empty() && short {
            by_op.entry(c.op.clone()).or_default().push(i);
        }
    }
    let (mut n, mut bad) = (0u64, 0);
    let mut rng = Rng(seed);
    watchdog();
    for g in by_op.values() {
        for w in 0..6 {
            let k = 2 + rng.below(3);
            let at = rng.below(g.len());
            let set: Vec<usize> = (0..k).map(|j| if w % 2 == 0 { g[(at + j) % g.len()] } else { g[rng.below(g.len())] }).collect();
            let start = std::sync::Barrier::new(threads);
            let seeds: Vec<u64> = (0..threads).map(|_| rng.next()).collect();
            let found: Vec<(u64, Option<(usize, Outcome)>)> = std::thread::scope(|sc| {
                let hs: Vec<_> = seeds
                    .iter()
                    .map(|x| {
                        let (calls, set, start) = (&calls, &set, &start);
                        sc.spawn(move || {
                            let mut rng = Rng(*x);
                            let mut st = Slots::default();
                            let mut n = 0;
                            start.wait();
                            let t = std::time::Instant::now();
                            while t.elapsed().as_millis() < ms as u128 / 6 {
                                let (line, c) = &calls[set[rng.below(set.len())]];
                                for _ in 0..1 + rng.below(4) {
                                    BEAT.fetch_add(1, Ordering::Relaxed);
                                    let o = run(c, &mut st);
                                    n += 1;
                                    if o.tag != "skipped" && o != c.out {
                                        return (n, Some((*line, o)));
                                    }
                                }
                            }
                            (n, None)
                        })
                    })
                    .collect();
                hs.into_iter().map(|h| h.join().expect("harness: thread")).collect()
            });
            for (m, f) in found {
                n += m;
                if let Some((line, o)) = f {
                    bad += 1;
                    if bad <= 20 {
                        println!("MISMATCH {} {} {}", line, o.tag, hex(&o.data));
                    }
                }
            }
        }
    }
    println!("DONE {} 0 {}", n, bad);
}

/// A call whose arguments take the place of those of the call before it.
#[derive(Clone)]
struct Place(Call, Vec<Vec<u8>>);
impl Default for Place {
    fn default() -> Self {
        Place(Call { op: String::new(), s: vec![], a: vec![], out: ops::tag("any") }, vec![])
    }
}
impl Place {
    fn place(&mut self, c: &Call) {
        self.0.op.clone_from(&c.op);
        self.0.s.clone_from(&c.s);
        while self.0.a.len() < c.a.len() {
            self.0.a.push(self.1.pop().unwrap_or_else(|| Vec::with_capacity(1 << 13)));
        }
        while self.0.a.len() > c.a.len() {
            self.1.extend(self.0.a.pop());
        }
        for (x, y) in self.0.a.iter_mut().zip(&c.a) {
            x.clear();
            x.extend_from_slice(y);
        }
    }
}

/// The calls of each behaviour, repeated and reordered at random, each order on one thread:
/// pairs (a, b, a), runs of one call, and random walks; with unrelated calls in between.
fn shuffle(path: &str, rounds: usize, seed: u64) {
    let calls = load(path);
    let mut groups: Vec<Vec<usize>> = vec![];
    for (i, (_, c)) in calls.iter().enumerate() {
        if c.op == "reset" {
            groups.push(vec![]);
        } else {
            groups.last_mut().expect("harness: no reset").push(i);
        }
    }
    let (mut n, mut bad) = (0u64, 0);
    let mut rng = Rng(seed);
    let mut st = Slots::default();
    let mut place = Place::default();
    watchdog();
    for g in groups.iter().filter(|g| !g.is_empty()) {
        let mut order: Vec<usize> = vec![];
        for _ in 0..rounds {
            let (a, b) = (g[rng.below(g.len())], g[rng.below(g.len())]);
            match rng.below(4) {
                0 => order.extend([a, b, a]),
                1 => order.extend([a, b, b, a]),
                2 => order.push(a),
                _ => {
                    let x = rng.below(g.len());
                    order.extend(g.iter().cycle().skip(x).take(1 + rng.below(6)));
                }
            }
        }
        // one call many times over, then another; a failing one when there is one
        let failing: Vec<usize> =
            g.iter().copied().filter(|i| !["bytes", "true", "ok"].contains(&calls[*i].1.out.tag.as_str())).collect();
        let from = if failing.is_empty() { g } else { &failing };
        let again = from[rng.below(from.len())];
        order.extend(std::iter::repeat(again).take(rounds));
        order.extend(g.iter());
        let mut prev = 0;
        for i in order {
            let (line, c) = &calls[i];
            CURRENT.store(*line, Ordering::Relaxed);
            BEAT.fetch_add(1, Ordering::Relaxed);
            // the arguments of every call at the same addresses
            place.place(c);
            let o = if rng.below(32) == 0 {
                let c = place.clone();
                std::thread::spawn(move || run(&c.0, &mut Slots::default())).join().expect("harness: thread")
            } else {
                run(&place.0, &mut st)
            };
            if o.tag == "skipped" {
                continue;
            }
            n += 1;
            if c.out.tag != "any" && o != c.out {
                bad += 1;
                if bad <= 20 {
                    println!("MISMATCH {} {} {}", line, o.tag, hex(&o.data));
                    println!("NOTE line {} came after line {}", line, prev);
                }
            }
            prev = *line;
        }
        // what else a client may do in between: many unrelated keys and messages
        for _ in 0..rounds / 8 {
            let k: [u8; 57] = rng.bytes(57).try_into().unwrap();
            let l = rng.below(300);
            let m = rng.bytes(l);
            let _ = std::panic::catch_unwind(|| {
                let p = libgoldilocks::goldilocks::ed448_derive_public(&k);
                let s = libgoldilocks::goldilocks::ed448_sign(&k, &m);
                libgoldilocks::goldilocks::ed448_verify(&p, &s, &m).ok()
            });
            BEAT.fetch_add(1, Ordering::Relaxed);
        }
    }
    println!("DONE {} 0 {}", n, bad);
}

/// The same few calls of one operation over and over: one operation to a thread at a time,
/// all in one process.
fn sustain(path: &str, count: usize, threads: usize) {
    let calls = load(path);
    let mut by_op: std::collections::BTreeMap<String, Vec<(usize, Call)>> = Default::default();
    for (line, c) in calls {
        let short = c.a.iter().map(|x| x.len()).sum::<usize>() < 700;
        if c.op != "reset" && c.out.tag != "any" && short {
            let v = by_op.entry(c.op.clone()).or_default();
            if v.len() < 12 {
                v.push((line, c));
            }
        }
    }
    // the long ones first
    let mut groups: Vec<Vec<(usize, Call)>> = by_op.into_values().collect();
    groups.sort_by_key(|g| match g[0].1.op.as_str() {
        "verify" => 0,
        "sign" => 1,
        "derive" => 2,
        _ => 3,
    });
    let groups = Arc::new(groups);
    let (next, n) = (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicU64::new(0)));
    let bad = Arc::new(Mutex::new(Vec::<String>::new()));
    watchdog();
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (groups, next, n, bad) = (groups.clone(), next.clone(), n.clone(), bad.clone());
            std::thread::spawn(move || loop {
                let g = next.fetch_add(1, Ordering::Relaxed);
                if g >= groups.len() {
                    break;
                }
                let mut st = Slots::default();
                let full = ["verify", "sign", "derive", "object_json", "hex_key"].contains(&groups[g][0].1.op.as_str());
                for i in 0..(if full { count } else { count / 10 }) {
                    let (line, c) = &groups[g][i % groups[g].len()];
                    BEAT.fetch_add(1, Ordering::Relaxed);
                    let o = run(c, &mut st);
                    if o.tag == "skipped" {
                        break;
                    }
                    n.fetch_add(1, Ordering::Relaxed);
                    if o != c.out {
                        let mut b = bad.lock().unwrap();
                        if b.len() < 20 {
                            b.push(format!("MISMATCH {} {} {}", line, o.tag, hex(&o.data)));
                            b.push(format!("NOTE line {} after {} calls of its operation", line, i));
                        }
                        break;
                    }
                }
            })
        })
        .collect();
    for h in hs {
        if h.join().is_err() {
            println!("MISMATCH 0 thread-died -");
        }
    }
    for b in bad.lock().unwrap().iter() {
        println!("{}", b);
    }
    println!("DONE {} 0 {}", n.load(Ordering::Relaxed), bad.lock().unwrap().len() / 2);
}

/// The I-th of a population of clients: its calls, as they would be written in a call list,
/// and a digest of each outcome.
fn client(seed: u64, i: usize) -> Vec<(String, u64)> {
    let mut r = Rng(seed.wrapping_mul(0x9e3779b97f4a7c15).wrapping_add((i as u64) << 32));
    let k = r.bytes(57);
    let l = 1 + r.below(64);
    let m = r.bytes(l);
    let mut m2 = m.clone();
    m2[r.below(l)] ^= 1 << r.below(8);
    let mut st = Slots::default();
    let mut out = vec![];
    let mut call = |op: &str, a: Vec<Vec<u8>>| {
        let c = Call { op: op.into(), s: vec![], a, out: ops::tag("any") };
        let o = run(&c, &mut st);
        let h = o.tag.bytes().chain(o.data.iter().copied()).fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
        out.push((format!("{}|-|{}|", c.op, c.a.iter().map(|x| hex(x)).collect::<Vec<_>>().join(",")), h));
        o.data
    };
    let pk = call("derive", vec![k.clone()]);
    let sig = call("sign", vec![k.clone(), m.clone()]);
    call("verify", vec![pk.clone(), sig.clone(), m.clone()]);
    call("verify_err", vec![pk, sig, m2]);
    call("hex_key", vec![hex(&k).into_bytes()]);
    out
}

/// Clients 0..N of a population, in one process, by several threads, in either direction:
/// POP client digest digest ...
fn population(n: usize, seed: u64, threads: usize, backward: bool) {
    let next = Arc::new(AtomicUsize::new(0));
    watchdog();
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let next = next.clone();
            std::thread::spawn(move || {
                let mut out = String::new();
                loop {
                    let i = next.fetch_add(1, Ordering::Relaxed);
                    if i >= n {
                        return out;
                    }
                    let i = if backward { n - 1 - i } else { i };
                    BEAT.fetch_add(1, Ordering::Relaxed);
                    let d: Vec<String> = client(seed, i).iter().map(|x| format!("{:x}", x.1)).collect();
                    out.push_str(&format!("POP {} {}\n", i, d.join(" ")));
                }
            })
        })
        .collect();
    for h in hs {
        print!("{}", h.join().expect("harness: thread"));
    }
    println!("DONE {} 0 0", 5 * n);
}
fn show_client(seed: u64, i: usize) {
    for (c, _) in client(seed, i) {
        println!("{}", c);
    }
}

/// Each call of standard input in a process of its own: OUT line tag data.
fn fresh(path: &str, threads: usize) {
    let lines: Arc<Vec<String>> =
        Arc::new(std::fs::read_to_string(path).expect("harness: cannot read calls").lines().map(String::from).collect());
    let exe = std::env::current_exe().unwrap();
    let next = Arc::new(AtomicUsize::new(0));
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let (lines, exe, next) = (lines.clone(), exe.clone(), next.clone());
            std::thread::spawn(move || loop {
                let i = next.fetch_add(1, Ordering::Relaxed);
                if i >= lines.len() {
                    break;
                }
                if lines[i].starts_with("reset|") {
                    continue;
                }
                let mut ch = std::process::Command::new(&exe)
                    .arg("one")
                    .stdin(std::process::Stdio::piped())
                    .stdout(std::process::Stdio::piped())
                    .spawn()
                    .expect("harness: spawn");
                ch.stdin.take().unwrap().write_all(lines[i].as_bytes()).unwrap();
                let o = ch.wait_with_output().expect("harness: wait");
                println!("OUT {} {}", i, String::from_utf8_lossy(&o.stdout).trim_end());
            })
        })
        .collect();
    for h in hs {
        h.join().unwrap();
    }
    println!("DONE {} 0 0", lines.len());
}
fn one() {
    let mut s = String::new();
    std::io::Read::read_to_string(&mut std::io::stdin(), &mut s).unwrap();
    let c = parse(s.trim_end()).unwrap();
    let o = run(&c, &mut Slots::default());
    println!("{} {}", o.tag, hex(&o.data));
}

/// Statistics over keys from ed448_generate_key: repeats, stretches that occur twice, bits
/// that prefer a value, bytes of a key that go together, dimension of their span.
fn keygen(n: usize, windows: usize, threads: usize) {
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            std::thread::spawn(move || {
                (0..n / threads).map(|_| libgoldilocks::goldilocks::ed448_generate_key()).collect::<Vec<_>>()
            })
        })
        .collect();
    let keys: Vec<[u8; 57]> = hs.into_iter().flat_map(|h| h.join().expect("harness: thread")).collect();
    println!("FIRST {}", keys.iter().take(1200).map(|k| hex(k)).collect::<Vec<_>>().join(","));
    let mut s: Vec<&[u8; 57]> = keys.iter().collect();
    s.sort_unstable();
    let repeats = s.windows(2).filter(|w| w[0] == w[1]).count();
    println!("STAT repeats {}", repeats);
    // stretches of eight bytes, at any position of any key
    let mut w: Vec<u64> = vec![];
    for k in keys.iter().step_by((keys.len() / windows).max(1)).take(windows) {
        w.extend((0..50).map(|i| u64::from_le_bytes(k[i..i + 8].try_into().unwrap())));
    }
    // and of consecutive keys of a thread
    let per = n / threads;
    for k in keys.chunks(per.max(1)).flat_map(|c| c[..c.len().min(400)].iter()) {
        w.extend((0..50).map(|i| u64::from_le_bytes(k[i..i + 8].try_into().unwrap()) ^ (1 << 63)));
    }
    w.sort_unstable();
    println!("STAT stretches {}", w.windows(2).filter(|x| x[0] == x[1]).count());
    let sd = (keys.len() as f64).sqrt() / 2.0;
    let mut worst = (0.0f64, 0);
    for b in 0..456 {
        let ones = keys.iter().filter(|k| k[b / 8] >> (b % 8) & 1 == 1).count();
        let z = (ones as f64 - keys.len() as f64 / 2.0).abs() / sd;
        if z > worst.0 {
            worst = (z, b);
        }
    }
    println!("STAT bias {:.2} {}", worst.0, worst.1);
    let m = &keys[..keys.len().min(60000)];
    let mut worst = (0.0f64, 0, 0);
    for i in 0..57 {
        for j in 0..i {
            let eq = m.iter().filter(|k| k[i] == k[j]).count() as f64;
            let e = m.len() as f64 / 256.0;
            let z = (eq - e).abs() / e.max(1.0).sqrt();
            if z > worst.0 {
                worst = (z, j, i);
            }
        }
    }
    println!("STAT pairs {:.2} {} {}", worst.0, worst.1, worst.2);
    // how often each value of each byte occurs
    let mut worst = (0.0f64, 0, 0);
    for i in 0..57 {
        let mut c = [0u32; 256];
        keys.iter().for_each(|k| c[k[i] as usize] += 1);
        let e = keys.len() as f64 / 256.0;
        for v in 0..256 {
            let z = (c[v] as f64 - e).abs() / e.max(1.0).sqrt();
            if z > worst.0 {
                worst = (z, i, v);
            }
        }
    }
    println!("STAT values {:.2} {} {}", worst.0, worst.1, worst.2);
    println!("DONE {} 0 0", keys.len());
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a[1].as_str() {
        "replay" => replay(&a[2]),
        "conc" => conc(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()),
        "contend" => contend(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap()),
        "shuffle" => shuffle(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        "population" => population(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5] == "1"),
        "client" => show_client(a[2].parse().unwrap(), a[3].parse().unwrap()),
        "sustain" => sustain(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        "sym" => sym::run(&a[2], a[3].parse().unwrap(), a[4].parse().unwrap()),
        "fresh" => fresh(&a[2], a[3].parse().unwrap()),
        "one" => one(),
        "keygen" => keygen(a[2].parse().unwrap(), a[3].parse().unwrap(), a[4].parse().unwrap()),
        _ => std::process::exit(2),
    }
}
