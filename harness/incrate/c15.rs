// C15: transcript hashing is deterministic, injective, domain separated and of the requested length.
// Two digests: SHAKE256 (what is really used; collision tables over its outputs) and a recording one that logs the
// exact byte stream every transcript feeds to the hash, so that two different transcripts with the same stream are
// seen as such whatever the output length.
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::sync::Mutex;
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::util::*;
use super::zkfix::*;
use crate::curve::{Point, Scalar};
use crate::dev::TestParams;
use crate::k256::{ProductionParams112, ProductionParams128};
use crate::paillier::*;
use crate::params::{chain_scheme_params, SchemeParams};
use crate::tools::bitvec::BitVec;
use crate::tools::hashing::{Chain, HashOutput, Hasher};
use crate::uint::*;
use digest::{ExtendableOutput, Update, XofReader};
use serde::ser::{SerializeMap, SerializeSeq, SerializeStruct, SerializeTuple};
use serde::{Serialize, Serializer};
use sha3::{Shake128, Shake256};

std::thread_local! {
    static LOG: RefCell<Vec<Vec<u8>>> = const { RefCell::new(Vec::new()) };
}

/// Logs what was hashed; output as SHAKE256.
#[derive(Default, Clone)]
pub struct Rec(Vec<u8>);
impl Update for Rec {
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data)
    }
}
impl ExtendableOutput for Rec {
    type Reader = <Shake256 as ExtendableOutput>::Reader;
    fn finalize_xof(self) -> Self::Reader {
        let mut d = Shake256::default();
        d.update(&self.0);
        LOG.with(|l| l.borrow_mut().push(self.0));
        d.finalize_xof()
    }
}
fn streams<T>(f: impl FnOnce() -> T) -> (T, Vec<Vec<u8>>) {
    LOG.with(|l| l.borrow_mut().clear());
    let r = f();
    (r, LOG.with(|l| std::mem::take(&mut *l.borrow_mut())))
}
fn stream(f: impl FnOnce() -> Hasher<Rec>) -> Vec<u8> {
    let (_, mut v) = streams(|| {
        f().finalize_to_reader();
    });
    v.pop().unwrap()
}
fn out_bytes(h: &HashOutput) -> Vec<u8> {
    unhex(to_json(h).as_str().unwrap_or(""))
}

/// A structured value; two values of one schema are equal iff they are equal as data.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum V {
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    I32(i32),
    I64(i64),
    Bool(bool),
    Char(char),
    Unit,
    /// fixed-size array of bytes
    Arr(Vec<u8>),
    Seq(Vec<V>),
    Opt(Option<Box<V>>),
    Enum(u32, Box<V>),
    Tuple(Vec<V>),
    Struct(Vec<V>),
    Map(BTreeMap<V, V>),
    Set(BTreeSet<V>),
}
impl Serialize for V {
    fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            V::U8(x) => s.serialize_u8(*x),
            V::U16(x) => s.serialize_u16(*x),
            V::U32(x) => s.serialize_u32(*x),
            V::U64(x) => s.serialize_u64(*x),
            V::U128(x) => (x.to_be_bytes()).serialize(s),
            V::I32(x) => s.serialize_i32(*x),
            V::I64(x) => s.serialize_i64(*x),
            V::Bool(x) => s.serialize_bool(*x),
            V::Char(x) => s.serialize_char(*x),
            V::Unit => s.serialize_unit(),
            V::Arr(x) => {
                let mut t = s.serialize_tuple(x.len())?;
                for b in x {
                    t.serialize_element(b)?;
                }
                t.end()
            }
            V::Seq(x) => x.serialize(s),
            V::Set(x) => x.serialize(s),
            V::Opt(None) => s.serialize_none(),
            V::Opt(Some(x)) => s.serialize_some(&**x),
            V::Enum(i, x) => s.serialize_newtype_variant("E", *i, "v", &**x),
            V::Tuple(x) => {
                let mut t = s.serialize_tuple(x.len())?;
                for b in x {
                    t.serialize_element(b)?;
                }
                t.end()
            }
            V::Struct(x) => {
                let mut t = s.serialize_struct("S", x.len())?;
                for b in x {
                    t.serialize_field("f", b)?;
                }
                t.end()
            }
            V::Map(x) => {
                let mut t = s.serialize_map(Some(x.len()))?;
                for (a, b) in x {
                    t.serialize_entry(a, b)?;
                }
                t.end()
            }
        }
    }
}
#[derive(Clone, Debug)]
enum Schema {
    U8,
    U16,
    U32,
    U64,
    U128,
    I32,
    I64,
    Bool,
    Char,
    Unit,
    Arr(usize),
    Seq(Box<Schema>),
    Set(Box<Schema>),
    Opt(Box<Schema>),
    Enum(Vec<Schema>),
    Tuple(Vec<Schema>),
    Struct(Vec<Schema>),
    Map(Box<Schema>, Box<Schema>),
}
impl Schema {
    fn random(rng: &mut Rng, depth: u32) -> Schema {
        let n = rng.next_u32();
        let sub = |rng: &mut Rng| Box::new(Schema::random(rng, depth - 1));
        let many = |rng: &mut Rng| (0..1 + rng.next_u32() % 3).map(|_| Schema::random(rng, depth - 1)).collect();
        if depth == 0 {
            return match n % 11 {
                0 => Schema::U8,
                1 => Schema::U16,
                2 => Schema::U32,
                3 => Schema::U64,
                4 => Schema::U128,
                5 => Schema::I32,
                6 => Schema::I64,
                7 => Schema::Bool,
                8 => Schema::Char,
                9 => Schema::Unit,
                _ => Schema::Arr(rng.next_u32() as usize % 4),
            };
        }
        match n % 8 {
            0 | 1 => Schema::Seq(sub(rng)),
            2 => Schema::Opt(sub(rng)),
            3 => Schema::Enum(many(rng)),
            4 => Schema::Tuple(many(rng)),
            5 => Schema::Struct(many(rng)),
            6 => Schema::Map(sub(rng), sub(rng)),
            _ => Schema::Set(sub(rng)),
        }
    }
    /// Small values, so that the parts of different values look alike.
    fn value(&self, rng: &mut Rng) -> V {
        let n = |rng: &mut Rng| -> u64 {
            match rng.next_u32() % 8 {
                0 => 0,
                1 => 1,
                2 => 2,
                3 => 255,
                4 => 256,
                5 => 1 << 8 | 1,
                6 => u64::MAX,
                _ => rng.next_u64(),
            }
        };
        let len = |rng: &mut Rng| rng.next_u32() % 4;
        match self {
            Schema::U8 => V::U8(n(rng) as u8),
            Schema::U16 => V::U16(n(rng) as u16),
            Schema::U32 => V::U32(n(rng) as u32),
            Schema::U64 => V::U64(n(rng)),
            Schema::U128 => V::U128((n(rng) as u128) << 64 | n(rng) as u128),
            Schema::I32 => V::I32(n(rng) as i32),
            Schema::I64 => V::I64(n(rng) as i64),
            Schema::Bool => V::Bool(n(rng) & 1 == 1),
            Schema::Char => V::Char(char::from_u32(n(rng) as u32 & 0x1ff).unwrap()),
            Schema::Unit => V::Unit,
            Schema::Arr(k) => V::Arr((0..*k).map(|_| n(rng) as u8).collect()),
            Schema::Seq(x) => V::Seq((0..len(rng)).map(|_| x.value(rng)).collect()),
            Schema::Set(x) => V::Set((0..len(rng)).map(|_| x.value(rng)).collect()),
            Schema::Opt(x) => V::Opt(if n(rng) & 1 == 1 { None } else { Some(Box::new(x.value(rng))) }),
            Schema::Enum(x) => {
                let k = rng.next_u32() as usize % x.len();
                V::Enum(k as u32, Box::new(x[k].value(rng)))
            }
            Schema::Tuple(x) => V::Tuple(x.iter().map(|s| s.value(rng)).collect()),
            Schema::Struct(x) => V::Struct(x.iter().map(|s| s.value(rng)).collect()),
            Schema::Map(a, b) => V::Map((0..len(rng)).map(|_| (a.value(rng), b.value(rng))).collect()),
        }
    }
}

/// Collision table: output -> what was hashed.
struct Table(HashMap<Vec<u8>, String>);
impl Table {
    fn new() -> Self {
        Table(HashMap::new())
    }
    fn put(&mut self, out: Vec<u8>, what: String) -> Result<(), String> {
        match self.0.get(&out) {
            Some(w) if *w != what => Err(format!("{} and {} hash alike", short(w, 300), short(&what, 300))),
            Some(_) => Ok(()),
            None => {
                self.0.insert(out, what);
                Ok(())
            }
        }
    }
}

/// All ways to divide `s` into `k` parts.
fn divide(s: &[u8], k: usize, out: &mut Vec<Vec<Vec<u8>>>) {
    fn go(s: &[u8], k: usize, cur: &mut Vec<Vec<u8>>, out: &mut Vec<Vec<Vec<u8>>>) {
        if k == 1 {
            cur.push(s.to_vec());
            out.push(cur.clone());
            cur.pop();
            return;
        }
        for i in 0..=s.len() {
            cur.push(s[..i].to_vec());
            go(&s[i..], k - 1, cur, out);
            cur.pop();
        }
    }
    go(s, k, &mut vec![], out)
}
fn hash_parts<D: Default + Update + ExtendableOutput>(parts: &[Vec<u8>]) -> Hasher<D> {
    let mut h = Hasher::<D>::new_with_dst(&parts[0]);
    for p in &parts[1..] {
        h = h.chain_bytes(p);
    }
    h
}
fn hash_values<D: Default + Update + ExtendableOutput>(dst: &[u8], v: &[V]) -> Hasher<D> {
    let mut h = Hasher::<D>::new_with_dst(dst);
    for x in v {
        h = h.chain(x);
    }
    h
}

fn bytes_division(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c15/divide", idx);
    let n = 1 + idx as usize % 9;
    let mut base = vec![0u8; n];
    for b in base.iter_mut() {
        // bytes that look like parts of a length
        *b = [0u8, 0, 1, 2, 8, 9, 0x61, 0xff][rng.next_u32() as usize % 8];
    }
    let k_max = if n > 6 { 4 } else { 5 };
    c.case("divided-bytes", &|| format!("{:?}", base), || {
        let mut t = Table::new();
        let mut tr = Table::new();
        let mut all = vec![];
        for k in 1..=k_max {
            divide(&base, k, &mut all);
        }
        for parts in &all {
            let w = format!("{:?}", parts);
            c.distinct(w.as_bytes());
            let a = out_bytes(&hash_parts::<Shake256>(parts).finalize(128));
            let b = out_bytes(&hash_parts::<Shake256>(parts).finalize(128));
            if a != b {
                return Err(format!("{} does not hash the same twice", w));
            }
            if a.len() != 32 {
                return Err(format!("{} bytes of output instead of 32", a.len()));
            }
            t.put(a, w.clone())?;
            tr.put(stream(|| hash_parts::<Rec>(parts)), w)?;
        }
        c.count_n("divisions", all.len() as u64);
        Ok(())
    });
}

/// Learns how a byte string is framed from the recorded streams and, when two lengths are framed alike, builds two
/// different sequences with the same stream.
fn framing(c: &Ctx) {
    let frame = |n: usize| -> Option<Vec<u8>> {
        let x = vec![0xa5u8; n];
        let base = stream(|| Hasher::<Rec>::new_with_dst(b"frame"));
        let s = stream(|| Hasher::<Rec>::new_with_dst(b"frame").chain_bytes(&x));
        let s = s.strip_prefix(&base[..])?.to_vec();
        if n == 0 {
            return Some(s);
        }
        Some(s.strip_suffix(&x[..])?.to_vec())
    };
    let mut lens: Vec<usize> = (0..1100).collect();
    for k in 11..=24 {
        for d in [-1i64, 0, 1, 8, 16] {
            lens.push(((1i64 << k) + d) as usize);
        }
    }
    let mut seen: HashMap<Vec<u8>, usize> = HashMap::new();
    for n in lens {
        c.count("framed-lengths");
        let Some(f) = frame(n) else {
            c.count("framing-not-a-prefix");
            continue;
        };
        let Some(m) = seen.insert(f.clone(), n) else { continue };
        // lengths m < n share a frame
        let (m, n) = (m.min(n), m.max(n));
        for k in 0..n - m + 1 {
            let Some(fk) = frame(k) else { break };
            if m + fk.len() + k != n {
                continue;
            }
            let x = vec![7u8; m];
            let y = vec![9u8; k];
            let z: Vec<u8> = [&x[..], &fk[..], &y[..]].concat();
            let one = stream(|| Hasher::<Rec>::new_with_dst(b"d").chain_bytes(&x).chain_bytes(&y));
            let two = stream(|| Hasher::<Rec>::new_with_dst(b"d").chain_bytes(&z));
            if one == two {
                c.violation("framing", "two byte sequences hash alike", format!("lengths {} and {} vs {}", m, k, n));
                return;
            }
        }
    }
}

fn values(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c15/values", idx);
    let n = 1 + rng.next_u32() % 3;
    let schema: Vec<Schema> = (0..n).map(|_| { let d = rng.next_u32() % 4; Schema::random(rng, d) }).collect();
    c.case("structured-values", &|| format!("{:?}", schema), || {
        let mut t = Table::new();
        let mut tr = Table::new();
        for _ in 0..60 {
            let v: Vec<V> = schema.iter().map(|s| s.value(rng)).collect();
            let w = format!("{:?}", v);
            c.distinct(w.as_bytes());
            c.count("values-hashed");
            let a = out_bytes(&hash_values::<Shake256>(b"tag", &v).finalize(128));
            if a != out_bytes(&hash_values::<Shake256>(b"tag", &v).finalize(128)) {
                return Err(format!("{} does not hash the same twice", w));
            }
            t.put(a, w.clone())?;
            tr.put(stream(|| hash_values::<Rec>(b"tag", &v)), w)?;
        }
        Ok(())
    });
}

fn lengths(c: &Ctx) {
    let mut by_len: BTreeMap<usize, Vec<BTreeSet<u8>>> = BTreeMap::new();
    let mut outs = Table::new();
    for bits in 1usize..=600 {
        c.case("output-length", &|| format!("{} bits", bits), || {
            let want = (2 * bits + 7) / 8;
            for i in 0..2u8 {
                let h = Hasher::<Shake256>::new_with_dst(b"len").chain_bytes(&[i]).finalize(bits);
                let b = out_bytes(&h);
                if b.len() != want {
                    return Err(format!("{} bytes of output, {} requested", b.len(), want));
                }
                if h != Hasher::<Shake256>::new_with_dst(b"len").chain_bytes(&[i]).finalize(bits) {
                    return Err("not the same twice".into());
                }
                if bits >= 64 {
                    outs.put(b, format!("{} {}", want, i))?;
                }
                let other = Hasher::<Shake256>::new_with_dst(b"len").chain_bytes(&[i]).finalize(bits + 4);
                if other == h {
                    return Err("outputs of different lengths are equal".into());
                }
            }
            Ok(())
        });
    }
    // every byte of the output carries entropy
    for bits in [16usize, 112, 128, 200] {
        for i in 0..scale(2500, 20000) {
            let b = out_bytes(&Hasher::<Shake256>::new_with_dst(b"entropy").chain_bytes(&i.to_be_bytes()).finalize(bits));
            let v = by_len.entry(bits).or_insert_with(|| vec![BTreeSet::new(); b.len()]);
            for (s, x) in v.iter_mut().zip(&b) {
                s.insert(*x);
            }
            c.count("entropy-outputs");
        }
    }
    for (bits, v) in by_len {
        for (k, s) in v.iter().enumerate() {
            // 2500 draws of a uniform byte miss a given value with probability < 6e-5 and 16 of them never
            if s.len() < 240 {
                c.violation("entropy", "output byte does not vary", format!("{} bits: byte {} took {} values", bits, k, s.len()));
            }
        }
    }
}

/// The digest must be the scheme's own.
fn digests(c: &Ctx) {
    c.case("digest-of-the-scheme", &|| String::new(), || {
        let a = out_bytes(&Hasher::<Shake256>::new_with_dst(b"x").finalize(128));
        let b = out_bytes(&Hasher::<Shake128>::new_with_dst(b"x").finalize(128));
        if a == b {
            return Err("the output does not depend on the digest type".into());
        }
        Ok(())
    });
}

macro_rules! pparams {
    ($name:ident, $bits:expr) => {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub struct $name;
        impl PaillierParams for $name {
            const PRIME_BITS: u32 = $bits;
            type HalfUint = <PaillierTest as PaillierParams>::HalfUint;
            type Uint = <PaillierTest as PaillierParams>::Uint;
            type WideUint = <PaillierTest as PaillierParams>::WideUint;
        }
    };
}
use crate::dev::PaillierTest;
pparams!(P100, 100);
pparams!(P127, 127);

macro_rules! sparams {
    ($name:ident, $curve:ty, $pail:ty, $sb:expr, $sp:expr, $l:expr, $lp:expr, $eps:expr) => {
        #[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
        pub struct $name;
        impl SchemeParams for $name {
            type Curve = $curve;
            type Digest = Rec;
            const SECURITY_BITS: usize = $sb;
            const SECURITY_PARAMETER: usize = $sp;
            const L_BOUND: u32 = $l;
            const LP_BOUND: u32 = $lp;
            const EPS_BOUND: u32 = $eps;
            type Paillier = $pail;
            type ExtraWideUint = <TestParams as SchemeParams>::ExtraWideUint;
        }
    };
}
type T32 = <TestParams as SchemeParams>::Curve;
type K1 = <ProductionParams112 as SchemeParams>::Curve;
sparams!(Base, T32, PaillierTest, 16, 32, 32, 160, 64);
sparams!(Sb17, T32, PaillierTest, 17, 32, 32, 160, 64);
sparams!(Sb272, T32, PaillierTest, 272, 32, 32, 160, 64);
sparams!(SbBig, T32, PaillierTest, 65552, 32, 32, 160, 64);
sparams!(Sp33, T32, PaillierTest, 16, 33, 32, 160, 64);
sparams!(Sp288, T32, PaillierTest, 16, 288, 32, 160, 64);
sparams!(SpBig, T32, PaillierTest, 16, 65568, 32, 160, 64);
sparams!(L33, T32, PaillierTest, 16, 32, 33, 160, 64);
sparams!(L288, T32, PaillierTest, 16, 32, 288, 160, 64);
sparams!(LBig, T32, PaillierTest, 16, 32, 65568, 160, 64);
sparams!(Lp161, T32, PaillierTest, 16, 32, 32, 161, 64);
sparams!(Lp416, T32, PaillierTest, 16, 32, 32, 416, 64);
sparams!(LpBig, T32, PaillierTest, 16, 32, 32, 65696, 64);
sparams!(Eps65, T32, PaillierTest, 16, 32, 32, 160, 65);
sparams!(Eps320, T32, PaillierTest, 16, 32, 32, 160, 320);
sparams!(EpsBig, T32, PaillierTest, 16, 32, 32, 160, 65600);
sparams!(Swap1, T32, PaillierTest, 32, 16, 32, 160, 64);
sparams!(Swap2, T32, PaillierTest, 16, 160, 32, 32, 64);
sparams!(Swap3, T32, PaillierTest, 16, 32, 160, 32, 64);
sparams!(Swap4, T32, PaillierTest, 16, 32, 32, 64, 160);
sparams!(Swap5, T32, PaillierTest, 16, 64, 32, 160, 32);
sparams!(Swap6, T32, PaillierTest, 16, 32, 64, 160, 32);
sparams!(Pb100, T32, P100, 16, 32, 32, 160, 64);
sparams!(Pb127, T32, P127, 16, 32, 32, 160, 64);
sparams!(Crv, K1, PaillierTest, 16, 32, 32, 160, 64);

fn params(c: &Ctx) {
    let mut t = Table::new();
    let mut ts = Table::new();
    macro_rules! put {
        ($($p:ty),*) => { $(
            c.case("scheme-params", &|| stringify!($p).to_string(), || {
                let name = stringify!($p).to_string();
                c.distinct(name.as_bytes());
                let h = || chain_scheme_params::<$p, _>(Hasher::<Shake256>::new_with_dst(b"P"));
                if h().finalize(128) != h().finalize(128) {
                    return Err("not the same twice".into());
                }
                t.put(out_bytes(&h().finalize(128)), name.clone())?;
                ts.put(stream(|| chain_scheme_params::<$p, _>(Hasher::<Rec>::new_with_dst(b"P"))), name)
            });
        )* };
    }
    put!(
        Base, Sb17, Sb272, SbBig, Sp33, Sp288, SpBig, L33, L288, LBig, Lp161, Lp416, LpBig, Eps65, Eps320, EpsBig,
        Swap1, Swap2, Swap3, Swap4, Swap5, Swap6, Pb100, Pb127, Crv, ProductionParams112, ProductionParams128
    );
}

/// Values of the library's own types: equal values hash alike, different ones do not.
fn library_values(c: &Ctx, idx: u64) {
    type S = TestParams;
    type P = Pp<S>;
    let rng = &mut rng_for("c15/lib", idx);
    let cu = CurveRef::tiny32();
    fn put<T: Serialize>(c: &Ctx, kind: &str, t: &mut BTreeMap<String, (Table, Table)>, x: &T) -> Result<(), String> {
        let (a, b) = t.entry(kind.to_string()).or_insert_with(|| (Table::new(), Table::new()));
        let w = to_json(x).to_string();
        c.count("library-values");
        c.distinct(w.as_bytes());
        let h = || Hasher::<Shake256>::new_with_dst(b"V").chain(x);
        if h().finalize(128) != h().finalize(128) {
            return Err("not the same twice".into());
        }
        a.put(out_bytes(&h().finalize(128)), w.clone()).map_err(|e| format!("{}: {}", kind, e))?;
        b.put(stream(|| Hasher::<Rec>::new_with_dst(b"V").chain(x)), w).map_err(|e| format!("{}: {}", kind, e))
    }
    c.case("library-types", &|| format!("{}", idx), || {
        let mut t = BTreeMap::new();
        let t = &mut t;
        let k = PKey::<S>::random(rng);
        for i in 0..30u64 {
            let small = Nat::from([0, 1, 2, 255, 256, 65535, 65536, i][rng.next_u32() as usize % 8]);
            let big = Nat::random_bits(rng, 254);
            let v = if rng.next_u32() & 1 == 0 { small } else { big.clone() };
            let sc = v.rem(&cu.n);
            put(c, "scalar", t, &from_json::<Scalar<S>>(&sc_json::<S>(&cu, &sc))?)?;
            let p = from_json::<Scalar<S>>(&sc_json::<S>(&cu, &sc))?.mul_by_generator();
            put(c, "point", t, &p)?;
            put(c, "points", t, &(p, p + Point::<S>::generator()))?;
            put(c, "uint", t, &PublicUint::<Ui<S>>::from(nb::<Ui<S>>(&v)))?;
            let s = Int::new(rng.next_u32() & 1 == 1, v.clone());
            put(c, "signed", t, &mk_public::<Ui<S>>(&s, 255))?;
            let bits = v.bits().max(1);
            put(c, "signed-bounds", t, &mk_public::<Ui<S>>(&s, bits + rng.next_u32() % (256 - bits)))?;
            put(c, "pk", t, &k.pk().into_wire())?;
            let ct = ct_of::<S>(&ct_json::<S>(&Nat::random_bits(rng, 400)), &k.pk())?.to_wire();
            put(c, "ciphertexts", t, &vec![ct; rng.next_u32() as usize % 3])?;
            let n = rng.next_u32() as usize % 20;
            put(c, "bits", t, &BitVec::random(rng, n))?;
            put(c, "bits-pair", t, &(BitVec::random(rng, n % 3), BitVec::random(rng, 2 - n % 3)))?;
            put(c, "hash", t, &Hasher::<Shake256>::new_with_dst(&[i as u8]).finalize(16))?;
            let ids: BTreeSet<u32> = (0..rng.next_u32() % 4).map(|_| rng.next_u32() % 6).collect();
            put(c, "ids", t, &ids)?;
            let m: BTreeMap<u32, Point<S>> = ids.iter().map(|i| (*i, p)).collect();
            put(c, "map", t, &m)?;
            put(c, "byte-slice", t, &&v.to_be()[..])?;
        }
        Ok(())
    });
}

/// Proof transcripts of different kinds start with different tags, and a proof kind hashes the same in the same run.
fn proofs(c: &Ctx, w: &World<Base>, tags: &Mutex<BTreeMap<Vec<u8>, Kind>>, idx: u64) {
    let kind = KINDS[idx as usize % KINDS.len()];
    let rng = &mut rng_for("c15/proofs", idx);
    let tag = |s: &[u8]| -> Option<Vec<u8>> {
        // framing as observed: 8 bytes of length, then the tag
        let probe = stream(|| Hasher::<Rec>::new_with_dst(b"probe"));
        if probe != [&5u64.to_be_bytes()[..], b"probe"].concat() || s.len() < 8 {
            return None;
        }
        let n = u64::from_be_bytes(s[..8].try_into().unwrap()) as usize;
        s.get(8..8 + n).map(|x| x.to_vec())
    };
    c.case(kind.name(), &|| format!("case {}", idx), || {
        let case = Case::random(w, kind, rng);
        let aux = Aux::random(rng);
        let r2 = &mut rng.clone();
        let (p1, s1) = streams(|| case.prove(rng, &aux));
        let (p2, s2) = streams(|| case.prove(r2, &aux));
        if s1 != s2 || p1.clone()? != p2? {
            return Err("the same proof run twice hashes differently".into());
        }
        if s1.is_empty() {
            return Err("nothing was hashed".into());
        }
        let proof = p1?;
        let (v, sv) = streams(|| verify::<Base>(kind, &case.pubs, &proof, &aux));
        if !matches!(v, Verdict::Accept) {
            return Err(format!("own proof not accepted: {:?}", v));
        }
        if sv.is_empty() {
            return Err("the verifier hashed nothing".into());
        }
        c.count_n("transcripts", (s1.len() + sv.len()) as u64);
        for s in s1.iter().chain(&sv) {
            c.distinct(s);
            let Some(t) = tag(s) else {
                c.count("tag-unreadable");
                continue;
            };
            let mut tags = tags.lock().unwrap();
            if let Some(k) = tags.insert(t.clone(), kind) {
                if k != kind {
                    return Err(format!("shares its tag {:?} with {}", String::from_utf8_lossy(&t), k.name()));
                }
            }
        }
        Ok(())
    });
}

pub fn main() -> i32 {
    big_stack(run)
}
fn run() -> i32 {
    let c = Ctx::new("C15");
    let rng = &mut rng_for("c15/world", 0);
    let w = &World::<Base>::new(rng, true);
    let tags = &Mutex::new(BTreeMap::new());
    let c = &c;
    lengths(c);
    digests(c);
    params(c);
    framing(c);
    c.par(scale(900, 8000), |i| bytes_division(c, i));
    c.par(scale(6000, 100000), |i| values(c, i));
    c.par(scale(160, 3000), |i| library_values(c, i));
    c.par(scale(180, 1800), |i| proofs(c, w, tags, i));
    for (t, k) in tags.lock().unwrap().iter() {
        c.sample("tag", format!("{}: {}", k.name(), String::from_utf8_lossy(t)));
    }
    c.finish(
        "an evaluation is one hashed sequence, divided byte string, structured value, parameter set or proof transcript put in a collision table; distinct = different inputs",
        &["Injectivity is judged between sequences of values of the same types (the framing does not record types, and unframed strings are outside the statement).",
          "The recording digest logs the exact stream fed to the hash and answers with SHAKE256 of it."],
    )
}
