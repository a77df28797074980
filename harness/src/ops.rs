//! The operations of the specification (api.qnt, objects.qnt, arith.qnt), executed on
//! the real library.
use libgoldilocks::errors::LibgoldilockErrors as E;
use libgoldilocks::goldilocks as g;
use libgoldilocks::{PrehashSigner, SecretKey, Signature, SigningKey, VerifyingKey};
use crate::wiring::{learn, Wiring};
use rand::{CryptoRng, RngCore};
use serde::de::{self, Deserializer, Visitor};
use serde::Deserialize;

#[derive(Clone, PartialEq, Debug)]
pub struct Outcome {
    pub tag: String,
    pub data: Vec<u8>,
}

pub fn tag(t: &str) -> Outcome {
    Outcome { tag: t.to_string(), data: vec![] }
}
pub fn bytes(b: &[u8]) -> Outcome {
    Outcome { tag: "bytes".to_string(), data: b.to_vec() }
}
pub fn boolean(b: bool) -> Outcome {
    tag(if b { "true" } else { "false" })
}

fn err(e: E) -> Outcome {
    match e {
        E::InvalidPrivKeyLengthErrro(n) => Outcome {
            tag: "InvalidPrivKeyLength".into(),
            data: (n as u32).to_le_bytes().to_vec(),
        },
        E::DecodePubkeyError => tag("DecodePubkeyError"),
        E::DecodeSignatureError => tag("DecodeSignatureError"),
        E::InvalidPubkeyLengthError => tag("InvalidPubkeyLengthError"),
        E::InvalidSignatureLengthError => tag("InvalidSignatureLengthError"),
        E::InvalidSignatureError => tag("InvalidSignatureError"),
        E::DecodeError => tag("DecodeError"),
        E::InvalidLengthError => tag("InvalidLengthError"),
    }
}

#[allow(dead_code)]
pub fn words(b: &[u8]) -> [u32; 14] {
    let mut w = [0u32; 14];
    for (i, c) in b.chunks(4).enumerate().take(14) {
        let mut x = [0u8; 4];
        x[..c.len()].copy_from_slice(c);
        w[i] = u32::from_le_bytes(x);
    }
    w
}

fn k57(b: &[u8]) -> [u8; 57] {
    b.try_into().expect("harness: key argument must have 57 bytes")
}

pub fn text(b: &[u8]) -> &str {
    std::str::from_utf8(b).expect("harness: text argument must be UTF-8")
}

/// A random source that hands out a given byte string, however it is asked for it.
pub struct Stream {
    pub data: Vec<u8>,
    pub pos: usize,
}
impl Stream {
    fn byte(&mut self) -> u8 {
        let b = if self.pos < self.data.len() { self.data[self.pos] } else { (self.pos * 37 + 11) as u8 };
        self.pos += 1;
        b
    }
}
impl RngCore for Stream {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0u8; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0u8; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = self.byte();
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}
impl CryptoRng for Stream {}
/// A source that offers the first 57 bytes of `want` to SigningKey::random, in the order
/// and portions it reads them.
fn offering(want: &[u8]) -> Stream {
    static W: std::sync::OnceLock<Option<Wiring>> = std::sync::OnceLock::new();
    let background = |n: usize| (0..n).map(|i| (i * 37 + 11) as u8).collect::<Vec<u8>>();
    let w = W.get_or_init(|| {
        let mut gen = |put: &[(usize, u8)]| {
            let mut r = Stream { data: background(8192), pos: 0 };
            put.iter().for_each(|p| r.data[p.0] = p.1);
            let k = SigningKey::random(&mut r);
            (k.to_bytes()[..57].try_into().unwrap(), r.pos)
        };
        learn(&mut gen, &|i| (i * 37 + 11) as u8).ok()
    });
    match w {
        Some(w) if !w.byte.iter().enumerate().all(|(j, b)| b.0 == j) && want.len() >= 57 => {
            let mut r = Stream { data: background(8192), pos: 0 };
            w.offer(want, 0).iter().for_each(|p| r.data[p.0] = p.1);
            r
        }
        _ => Stream { data: want.to_vec(), pos: 0 },
    }
}

/// A deserializer of a format that is not human readable, carrying a string.
struct Binary<'a>(&'a str);
impl<'de, 'a> Deserializer<'de> for Binary<'a> {
    type Error = de::value::Error;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, Self::Error> {
        v.visit_string(self.0.to_string())
    }
    fn is_human_readable(&self) -> bool {
        false
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string
        bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

#[derive(Default, Clone)]
pub struct Slots {
    pub sk: [Option<SecretKey>; 4],
    pub vk: [Option<VerifyingKey>; 4],
    pub sg: [Option<SigningKey>; 4],
}

/// Deserialize a JSON text through every entry point of serde_json that applies.
fn from_json<T>(b: &[u8]) -> Result<T, &'static str>
where
    T: for<'de> Deserialize<'de> + PartialEq,
{
    let a: Result<T, _> = serde_json::from_str(text(b));
    let c: Result<T, _> = serde_json::from_slice(b);
    let v: Result<serde_json::Value, _> = serde_json::from_str(text(b));
    if a.is_ok() != c.is_ok() {
        return Err("split");
    }
    if let Ok(v) = v {
        let d: Result<T, _> = serde_json::from_value(v);
        if d.is_ok() != a.is_ok() {
            return Err("split");
        }
        if let (Ok(x), Ok(y)) = (&a, &d) {
            if x != y {
                return Err("split");
            }
        }
    }
    match (a, c) {
        (Ok(x), Ok(y)) => {
            if x == y {
                Ok(x)
            } else {
                Err("split")
            }
        }
        _ => Err("err"),
    }
}

fn round_trip<T>(x: &T) -> Result<T, &'static str>
where
    T: serde::Serialize + for<'de> Deserialize<'de> + PartialEq,
{
    let s = serde_json::to_string(x).map_err(|_| "err")?;
    let y: T = serde_json::from_str(&s).map_err(|_| "err")?;
    let v = serde_json::to_vec(x).map_err(|_| "err")?;
    let z: T = serde_json::from_slice(&v).map_err(|_| "err")?;
    let w = serde_json::to_value(x).map_err(|_| "err")?;
    let u: T = serde_json::from_value(w).map_err(|_| "err")?;
    if *x == y && *x == z && *x == u && v == s.as_bytes() {
        Ok(y)
    } else {
        Err("split")
    }
}

fn put<T>(slot: &mut Option<T>, r: Result<T, &'static str>) -> Outcome {
    match r {
        Ok(x) => {
            *slot = Some(x);
            tag("ok")
        }
        Err(e) => tag(e),
    }
}

pub const NO: &str = "harness: empty slot";

pub fn verify(pk: &[u8], sig: &[u8], m: &[u8]) -> Outcome {
    match g::ed448_verify(pk, sig, m) {
        Ok(b) => boolean(b),
        Err(e) => err(e),
    }
}
pub fn verify_err(pk: &[u8], sig: &[u8], m: &[u8]) -> Outcome {
    match g::ed448_verify_with_error(pk, sig, m) {
        Ok(()) => tag("ok"),
        Err(e) => err(e),
    }
}

/// The encoding of the base point.
const BASE: [u8; 57] = [
    0x14, 0xfa, 0x30, 0xf2, 0x5b, 0x79, 0x08, 0x98, 0xad, 0xc8, 0xd7, 0x4e, 0x2c, 0x13, 0xbd, 0xfd, 0xc4, 0x39, 0x7c,
    0xe6, 0x1c, 0xff, 0xd3, 0x3a, 0xd7, 0xc2, 0xa0, 0x05, 0x1e, 0x9c, 0x78, 0x87, 0x40, 0x98, 0xa3, 0x6c, 0x73, 0x73,
    0xea, 0x4b, 0x62, 0xc7, 0xc9, 0x56, 0x37, 0x20, 0x76, 0x88, 0x24, 0xbc, 0xb6, 0x6e, 0x71, 0x46, 0x3f, 0x69, 0x00,
];
/// A signature that decodes, except for the part put in.
fn probe(r: Option<&[u8]>, s: Option<&[u8]>) -> Vec<u8> {
    let mut five = [0u8; 57];
    five[0] = 5;
    [r.unwrap_or(&BASE), s.unwrap_or(&five)].concat()
}
pub fn quiet<F: FnOnce() -> Outcome>(f: F) -> Outcome {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).unwrap_or_else(|_| tag("panic"))
}
fn with_error(v: &Outcome) -> Outcome {
    match v.tag.as_str() {
        "true" => tag("ok"),
        "false" => tag("InvalidSignatureError"),
        _ => v.clone(),
    }
}
pub fn accepted(pk: &[u8], sig: &[u8], m: &[u8]) -> bool {
    quiet(|| verify(pk, sig, m)).tag == "true" || quiet(|| verify_err(pk, sig, m)).tag == "ok"
}
/// true when both functions accept
pub fn both(pk: &[u8], sig: &[u8], m: &[u8]) -> Outcome {
    let v = verify(pk, sig, m);
    let w = verify_err(pk, sig, m);
    if v.tag == "true" && w.tag != "ok" {
        w
    } else {
        v
    }
}

/// `b` continued with zeros.
fn long(b: &[u8], n: usize) -> Vec<u8> {
    let mut v = vec![0u8; n];
    v[..b.len()].copy_from_slice(b);
    v
}

pub fn exec(op: &str, s: &[usize], a: &[Vec<u8>], st: &mut Slots) -> Outcome {
    match op {
        // arguments given by their beginnings and lengths (m_giant.qnt)
        _ if op.starts_with("big_") => {
            let mut v: Vec<Vec<u8>> = (0..a.len()).map(|i| if i < 2 { long(&a[i], s[i]) } else { vec![s[3] as u8; s[i]] }).collect();
            if a.len() > 2 {
                v[2][..a[2].len()].copy_from_slice(&a[2]);
            }
            exec(&op[4..], &[], &v, st)
        }
        "verify" => verify(&a[0], &a[1], &a[2]),
        "verify_err" => verify_err(&a[0], &a[1], &a[2]),
        "sign" => bytes(&g::ed448_sign(&k57(&a[0]), &a[1])),
        "derive" => bytes(&g::ed448_derive_public(&k57(&a[0]))),
        "sign_private" => bytes(&g::sign_by_private(&k57(&a[0]), &a[1])),
        "sign_secret_nonce" => bytes(&g::sign_with_secret_and_nonce(&k57(&a[0]), &k57(&a[1]), &a[2])),
        "private_to_secret" => bytes(&g::private_to_secret(&k57(&a[0]))),
        "secret_to_public" => bytes(&g::secret_to_public(&k57(&a[0]))),
        "private_to_public" => bytes(&g::private_to_public(&k57(&a[0]))),
        "hex_message" => bytes(&g::hex_to_message_hash(text(&a[0]))),
        "hex_key" => bytes(&g::hex_to_private_key(text(&a[0]))),
        "hex_signature" => bytes(&g::hex_to_signature(text(&a[0]))),

        // round trips through the library's own values
        "complete" => {
            let k = k57(&a[0]);
            both(&g::ed448_derive_public(&k), &g::ed448_sign(&k, &a[1]), &a[1])
        }
        "complete_private" => {
            let k = k57(&a[0]);
            both(&g::private_to_public(&k), &g::sign_by_private(&k, &a[1]), &a[1])
        }
        "complete_nonce" => {
            let k = k57(&a[0]);
            both(&g::secret_to_public(&k), &g::sign_with_secret_and_nonce(&k, &k57(&a[1]), &a[2]), &a[2])
        }
        "complete_object" => {
            let k = SigningKey::from_slice(&a[0]);
            let r: Result<Signature, E> = k.sign_prehash(&a[1]);
            match r {
                Ok(x) => {
                    let pk = k.verifying_key().as_bytes();
                    let whole = both(pk, x.as_slice(), &a[1]);
                    let own = both(&x.as_slice()[x.as_slice().len() - 57..], x.as_slice(), &a[1]);
                    if whole == own {
                        both(pk, &x.as_slice()[..114], &a[1])
                    } else {
                        tag("split")
                    }
                }
                Err(e) => err(e),
            }
        }
        // a signing-key object made, used and dropped
        "object_sign" => {
            let r: Result<Signature, E> = SigningKey::from_slice(&a[0]).sign_prehash(&a[1]);
            match r {
                Ok(x) => bytes(x.as_slice()),
                Err(e) => err(e),
            }
        }
        "object_json" => {
            let k: Result<SigningKey, _> = serde_json::from_str(&format!("\"{}\"", crate::hex(&a[0])));
            match k {
                Ok(k) => {
                    let r: Result<Signature, E> = k.sign_prehash(&a[1]);
                    match r {
                        Ok(x) => bytes(x.as_slice()),
                        Err(e) => err(e),
                    }
                }
                Err(_) => tag("err"),
            }
        }
        "object_text" => {
            let k: Result<SigningKey, _> = serde_json::from_str(&format!("\"{}\"", text(&a[0])));
            k.map(|k| bytes(k.verifying_key().as_bytes())).unwrap_or(tag("err"))
        }
        "object_public" => match SigningKey::from_bytes(&a[0]) {
            Ok(k) => bytes(k.verifying_key().as_bytes()),
            Err(e) => err(e),
        },
        // the two verification functions give the same answer
        "agree" => {
            let v = quiet(|| verify(&a[0], &a[1], &a[2]));
            let w = quiet(|| verify_err(&a[0], &a[1], &a[2]));
            boolean(with_error(&v) == w)
        }
        // accepted or not, whatever the reason
        "accepts" => boolean(quiet(|| verify(&a[0], &a[1], &a[2])).tag == "true"),
        "accepts_err" => boolean(quiet(|| verify_err(&a[0], &a[1], &a[2])).tag == "ok"),
        "decodes_key" => boolean(!["DecodePubkeyError", "InvalidPubkeyLengthError", "panic"]
            .contains(&quiet(|| verify(&a[0], &probe(None, None), b"")).tag.as_str())),
        "decodes_r" => boolean(!["DecodeSignatureError", "InvalidSignatureLengthError", "panic"]
            .contains(&quiet(|| verify(&BASE, &probe(Some(&a[0]), None), b"")).tag.as_str())),
        "decodes_s" => boolean(!["DecodeSignatureError", "InvalidSignatureLengthError", "panic"]
            .contains(&quiet(|| verify(&BASE, &probe(None, Some(&a[0])), b"")).tag.as_str())),

        "sk_from_str" => put(&mut st.sk[s[0]], Ok(SecretKey::from_str(text(&a[0])))),
        "vk_from_str" => put(&mut st.vk[s[0]], Ok(VerifyingKey::from_str(text(&a[0])))),
        "sg_from_str" => put(&mut st.sg[s[0]], Ok(SigningKey::from_str(text(&a[0])))),
        "sk_from_bytes" => put(&mut st.sk[s[0]], Ok(SecretKey::from_bytes(&a[0]))),
        "vk_from_bytes" => put(&mut st.vk[s[0]], Ok(VerifyingKey::from_bytes(&a[0]))),
        "sg_from_slice" => put(&mut st.sg[s[0]], Ok(SigningKey::from_slice(&a[0]))),
        "sg_from_bytes" => match SigningKey::from_bytes(&a[0]) {
            Ok(k) => put(&mut st.sg[s[0]], Ok(k)),
            Err(e) => err(e),
        },
        "sk_from_json" => put(&mut st.sk[s[0]], from_json(&a[0])),
        "vk_from_json" => put(&mut st.vk[s[0]], from_json(&a[0])),
        "sg_from_json" => put(&mut st.sg[s[0]], from_json(&a[0])),
        "sk_from_binary" => put(&mut st.sk[s[0]], SecretKey::deserialize(Binary(text(&a[0]))).map_err(|_| "err")),
        "vk_from_binary" => put(&mut st.vk[s[0]], VerifyingKey::deserialize(Binary(text(&a[0]))).map_err(|_| "err")),
        "sg_from_binary" => put(&mut st.sg[s[0]], SigningKey::deserialize(Binary(text(&a[0]))).map_err(|_| "err")),
        "sg_random" => {
            let mut r = offering(&a[0]);
            put(&mut st.sg[s[0]], Ok(SigningKey::random(&mut r)))
        }
        "sg_from_sk" => {
            let k = st.sk[s[1]].expect(NO);
            put(&mut st.sg[s[0]], Ok(SigningKey::from(k)))
        }
        "sg_vk" => {
            let v = *st.sg[s[1]].as_ref().expect(NO).verifying_key();
            st.vk[s[0]] = Some(v);
            bytes(v.as_bytes())
        }
        "sg_sk" => {
            let k = *st.sg[s[1]].as_ref().expect(NO).secret_key();
            st.sk[s[0]] = Some(k);
            bytes(&SigningKey::from(k).to_bytes())
        }
        "sk_json" => bytes(serde_json::to_string(st.sk[s[0]].as_ref().expect(NO)).unwrap().as_bytes()),
        "vk_json" => bytes(serde_json::to_string(st.vk[s[0]].as_ref().expect(NO)).unwrap().as_bytes()),
        "sg_json" => bytes(serde_json::to_string(st.sg[s[0]].as_ref().expect(NO)).unwrap().as_bytes()),
        "sk_binary" => crate::plain::written(st.sk[s[0]].as_ref().expect(NO)),
        "vk_binary" => crate::plain::written(st.vk[s[0]].as_ref().expect(NO)),
        "sg_binary" => crate::plain::written(st.sg[s[0]].as_ref().expect(NO)),
        "vk_as_bytes" => bytes(st.vk[s[0]].as_ref().expect(NO).as_bytes()),
        "sg_to_bytes" => bytes(&st.sg[s[0]].as_ref().expect(NO).to_bytes()),
        "sg_public" => bytes(st.sg[s[0]].as_ref().expect(NO).verifying_key().as_bytes()),
        "sk_eq" => {
            let (x, y) = (st.sk[s[0]].expect(NO), st.sk[s[1]].expect(NO));
            eq_ne(x == y, x != y)
        }
        "vk_eq" => {
            let (x, y) = (st.vk[s[0]].expect(NO), st.vk[s[1]].expect(NO));
            eq_ne(x == y, x != y)
        }
        "sg_eq" => {
            let (x, y) = (st.sg[s[0]].expect(NO), st.sg[s[1]].expect(NO));
            eq_ne(x == y, x != y)
        }
        "sk_roundtrip" => {
            let r = round_trip(st.sk[s[1]].as_ref().expect(NO));
            put(&mut st.sk[s[0]], r)
        }
        "vk_roundtrip" => {
            let r = round_trip(st.vk[s[1]].as_ref().expect(NO));
            put(&mut st.vk[s[0]], r)
        }
        "sg_roundtrip" => {
            let r = round_trip(st.sg[s[1]].as_ref().expect(NO));
            put(&mut st.sg[s[0]], r)
        }
        "sg_sign" => {
            let r: Result<Signature, _> = st.sg[s[0]].as_ref().expect(NO).sign_prehash(&a[0]);
            match r {
                Ok(x) => bytes(x.as_slice()),
                Err(e) => err(e),
            }
        }
        "vk_verify" => verify(st.vk[s[0]].as_ref().expect(NO).as_bytes(), &a[0], &a[1]),
        _ => other(op, s, a),
    }
}

fn eq_ne(eq: bool, ne: bool) -> Outcome {
    if eq == ne {
        tag("split")
    } else {
        boolean(eq)
    }
}

/// Operations of an optional layer; "skipped" when the layer is not built.
#[allow(unused_variables)]
fn other(op: &str, s: &[usize], a: &[Vec<u8>]) -> Outcome {
    #[cfg(feature = "points")]
    if let Some(o) = crate::points::exec(op, s, a) {
        return o;
    }
    #[cfg(feature = "field")]
    if let Some(o) = crate::field::exec(op, s, a) {
        return o;
    }
    #[cfg(feature = "scalar")]
    if let Some(o) = crate::scalar::exec(op, s, a) {
        return o;
    }
    #[cfg(feature = "recode")]
    if let Some(o) = crate::recode::exec(op, s, a) {
        return o;
    }
    #[cfg(feature = "group")]
    if let Some(o) = crate::group::exec(op, s, a) {
        return o;
    }
    tag("skipped")
}
