// C03: wire formats round-trip; hostile encodings are refused or decode to a value that satisfies every invariant.
use std::boxed::Box;
use std::fmt::Debug;
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::util::*;
use super::protofix::*;
use super::zkfix::*;
use crate::entities::*;
use crate::tools::sss::*;
use std::collections::{BTreeMap, BTreeSet};
use crate::curve::{Point, Scalar};
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::paillier::*;
use crate::params::SchemeParams;
use crate::tools::bitvec::BitVec;
use crate::tools::hashing::{Chain, HashOutput, Hasher};
use crate::tools::Secret;
use crate::uint::*;
use crate::zk::*;
use ciborium::Value as V;
use crypto_bigint::{Bounded, Integer};
use rand_core::RngCore;
use serde::{de::DeserializeOwned, Serialize};

/// What an encoding says, in a form common to both formats: byte strings as "0x" hex.
fn said_cbor(v: &V) -> Option<J> {
    Some(match v {
        V::Bytes(b) => J::String(hex0x(b)),
        V::Text(s) => J::String(format!("text:{}", s)),
        V::Bool(b) => J::Bool(*b),
        V::Null => J::Null,
        V::Integer(i) => {
            let x: i128 = (*i).into();
            if let Ok(x) = u64::try_from(x) {
                serde_json::json!(x)
            } else {
                return None;
            }
        }
        V::Array(a) => J::Array(a.iter().map(said_cbor).collect::<Option<_>>()?),
        V::Map(m) => {
            let mut o = serde_json::Map::new();
            o.insert("#binary".into(), J::Bool(true));
            for (k, v) in m {
                let V::Text(k) = k else { return None };
                if o.insert(k.clone(), said_cbor(v)?).is_some() {
                    return None;
                }
            }
            J::Object(o)
        }
        _ => return None,
    })
}

fn hexnum(j: &J) -> Option<Nat> {
    let s = j.as_str()?.strip_prefix("0x")?;
    if s.len() % 2 == 1 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    Some(Nat::from_be(&unhex(s)))
}

trait Wire: Serialize + DeserializeOwned + Debug {}
impl<T: Serialize + DeserializeOwned + Debug> Wire for T {}

type View<T> = Box<dyn Fn(&T) -> String + Sync>;
type Judge<T> = Box<dyn Fn(&T, Option<&J>) -> Result<(), String> + Sync>;
/// One wire type: how to make values, an account of a value that does not use serde, and its invariants
/// (given also what the encoding says, if that could be read).
struct Type<T> {
    name: String,
    make: Box<dyn Fn(&mut Rng, u32) -> T + Sync>,
    view: View<T>,
    judge: Judge<T>,
}

fn as_cbor<T: Serialize>(x: &T) -> V {
    V::serialized(x).expect("serializes")
}

fn paths(v: &V) -> Vec<Vec<usize>> {
    fn go(v: &V, at: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
        out.push(at.clone());
        let kids: Vec<&V> = match v {
            V::Array(a) => a.iter().collect(),
            V::Map(m) => m.iter().map(|x| &x.1).collect(),
            _ => vec![],
        };
        for (i, k) in kids.into_iter().enumerate() {
            at.push(i);
            go(k, at, out);
            at.pop();
        }
    }
    let mut out = vec![];
    go(v, &mut vec![], &mut out);
    out
}
fn at<'a>(v: &'a mut V, p: &[usize]) -> &'a mut V {
    match p.split_first() {
        None => v,
        Some((i, r)) => match v {
            V::Array(a) => at(&mut a[*i], r),
            V::Map(m) => at(&mut m[*i].1, r),
            _ => unreachable!(),
        },
    }
}

/// A hostile variant of one node.
fn twist(v: &V, rng: &mut Rng) -> (V, String) {
    let ints = [0u64, 1, 2, 7, 8, 9, 31, 32, 63, 64, 127, 128, 255, 256, 257, 511, 512, 1023, 1024, 2047, 2048, 4095, 4096, 65535, 1 << 31, u32::MAX as u64, 1 << 32, u64::MAX];
    let k = rng.next_u32();
    match v {
        V::Bytes(b) => {
            let mut x = b.clone();
            let how = match k % 14 {
                0 => {
                    x.clear();
                    "empty"
                }
                1 => {
                    x.pop();
                    "one byte shorter"
                }
                2 => {
                    x.insert(0, 0);
                    "zero in front"
                }
                3 => {
                    x.insert(0, 1 + (rng.next_u32() % 255) as u8);
                    "byte in front"
                }
                4 => {
                    x.push(rng.next_u32() as u8);
                    "byte behind"
                }
                5 => {
                    x.iter_mut().for_each(|b| *b = 0);
                    "all zero"
                }
                6 => {
                    x.iter_mut().for_each(|b| *b = 0xff);
                    "all ones"
                }
                7 if !x.is_empty() => {
                    x.remove(0);
                    "first byte dropped"
                }
                8 => {
                    x.extend(b);
                    "doubled"
                }
                9 => {
                    x = vec![0; 1 << (rng.next_u32() % 12)];
                    x[0] = 1;
                    "long"
                }
                10 => {
                    rng.fill_bytes(&mut x);
                    "random"
                }
                11 if !x.is_empty() => {
                    x[0] = rng.next_u32() as u8;
                    "first byte changed"
                }
                12 if !x.is_empty() => {
                    let n = x.len();
                    x[n - 1] ^= 1;
                    "parity changed"
                }
                _ if !x.is_empty() => {
                    let i = rng.next_u32() as usize % x.len();
                    x[i] ^= 1 << (rng.next_u32() % 8);
                    "bit flipped"
                }
                _ => "same",
            };
            (V::Bytes(x), how.into())
        }
        V::Integer(_) => {
            let i = ints[k as usize % ints.len()];
            (V::Integer(i.into()), format!("integer {}", i))
        }
        V::Bool(b) => (V::Bool(!b), "flipped".into()),
        V::Array(a) => {
            let mut x = a.clone();
            match k % 4 {
                0 => {
                    x.pop();
                    (V::Array(x), "element dropped".into())
                }
                1 => {
                    x.push(a.first().cloned().unwrap_or(V::Null));
                    (V::Array(x), "element added".into())
                }
                2 => (V::Array(vec![]), "emptied".into()),
                _ => {
                    x.reverse();
                    (V::Array(x), "reversed".into())
                }
            }
        }
        V::Map(m) => {
            let mut x = m.clone();
            match k % 5 {
                0 => {
                    if !x.is_empty() {
                        x.remove(rng.next_u32() as usize % m.len());
                    }
                    (V::Map(x), "field dropped".into())
                }
                1 => {
                    if let Some(f) = m.first() {
                        x.push(f.clone());
                    }
                    (V::Map(x), "field repeated".into())
                }
                2 => {
                    x.push((V::Text("surplus".into()), V::Null));
                    (V::Map(x), "field added".into())
                }
                3 => (V::Array(m.iter().map(|x| x.1.clone()).collect()), "as an array".into()),
                _ => {
                    x.reverse();
                    (V::Map(x), "reordered".into())
                }
            }
        }
        _ => (V::Bytes(vec![1, 2, 3]), "replaced".into()),
    }
}
fn other_kind(v: &V, rng: &mut Rng) -> (V, String) {
    let all = [
        V::Null,
        V::Bool(true),
        V::Integer(5.into()),
        V::Integer((-1).into()),
        V::Float(1.5),
        V::Text("0x01".into()),
        V::Text("abc\u{fffd}".into()),
        V::Bytes(vec![]),
        V::Bytes(vec![7; 32]),
        V::Array(vec![]),
        V::Array(vec![v.clone()]),
        V::Array((0..32).map(|_| V::Integer(7.into())).collect()),
        V::Map(vec![]),
        V::Map(vec![(V::Text("modulus".into()), v.clone())]),
        V::Tag(42, Box::new(v.clone())),
        V::Tag(2, Box::new(V::Bytes(vec![9; 8]))),
    ];
    let i = rng.next_u32() as usize % all.len();
    (all[i].clone(), format!("replaced by {:?}", short(&format!("{:?}", all[i]), 40)))
}

/// The same for JSON strings.
fn twist_json(s: &str, rng: &mut Rng) -> (J, String) {
    let k = rng.next_u32() % 16;
    let body = s.strip_prefix("0x").unwrap_or(s);
    let st = |x: String, how: &str| (J::String(x), how.to_string());
    match k {
        0 => st(body.into(), "prefix dropped"),
        1 => st(format!("0X{}", body), "prefix in capitals"),
        2 => st(s.to_uppercase(), "capitals"),
        3 => {
            let mut x = s.to_string();
            x.pop();
            st(x, "half a byte dropped")
        }
        4 => st(format!("0x{}", &body.get(2..).unwrap_or("")), "first byte dropped"),
        5 => st(format!("0x01{}", body), "byte in front"),
        6 => st(format!("0x00{}", body), "zero in front"),
        7 => st(String::new(), "empty string"),
        8 => st("0x".into(), "no digits"),
        9 => st(format!("{}zz", s), "no hex digits"),
        10 => st(format!(" {}", s), "space in front"),
        11 => st(format!("0x{}", "f".repeat(body.len())), "all ones"),
        12 => st(format!("0x{}", "0".repeat(body.len())), "all zero"),
        13 => (J::Array(vec![]), "array".into()),
        14 => (serde_json::json!(12), "number".into()),
        _ => {
            let mut b: Vec<u8> = s.bytes().collect();
            if !b.is_empty() {
                let i = rng.next_u32() as usize % b.len();
                b[i] = b"0123456789abcdefxg-+/="[rng.next_u32() as usize % 22];
            }
            st(String::from_utf8(b).unwrap_or_default(), "character changed")
        }
    }
}

impl<T: Wire> Type<T> {
    fn check(&self, c: &Ctx, idx: u64) {
        let rng = &mut rng_for(&format!("c03/{}", self.name), idx);
        let x = (self.make)(rng, rng.clone().next_u32());
        let name = &self.name;
        let view = (self.view)(&x);
        // round trips
        c.distinct(format!("{}{}", name, view).as_bytes());
        c.case(&format!("{}: round trip", name), &|| view.clone(), || {
            let cb = to_cbor(&x);
            let y: T = from_cbor(&cb).map_err(|e| format!("own binary encoding refused: {}", e))?;
            let js = to_json(&x);
            let text = serde_json::to_string(&x).map_err(|e| e.to_string())?;
            let z: T = from_json(&js).map_err(|e| format!("own human-readable encoding refused: {}", e))?;
            let w: T = serde_json::from_str(&text).map_err(|e| format!("own JSON text refused: {}", e))?;
            c.sample(name, format!("{} = {}", short(&view, 100), short(&text, 200)));
            for (v, how) in [(&y, "binary"), (&z, "human-readable"), (&w, "JSON text")] {
                let got = (self.view)(v);
                if got != view {
                    return Err(format!("{} round trip gives {}", how, short(&got, 400)));
                }
                (self.judge)(v, None).map_err(|e| format!("after a {} round trip: {}", how, e))?;
            }
            if to_cbor(&y) != cb || to_json(&z) != js {
                return Err("encoding a decoded value gives another encoding".into());
            }
            Ok(())
        });
        // hostile binary structures
        let tree = as_cbor(&x);
        let ps = paths(&tree);
        let n = if thorough() { 120 } else { 40 };
        for _ in 0..n {
            let mut t = tree.clone();
            let mut what = vec![];
            for _ in 0..1 + (rng.next_u32() % 4 == 0) as u32 {
                let p = &ps[rng.next_u32() as usize % ps.len()];
                // an earlier change may have removed the place
                let ok = no_panic(|| {
                    at(&mut t, p);
                });
                if ok.is_err() {
                    continue;
                }
                let node = at(&mut t, p);
                let (v, how) = if rng.next_u32() % 6 == 0 { other_kind(node, rng) } else { twist(node, rng) };
                *node = v;
                what.push(format!("{:?} {}", p, how));
            }
            let mut b = vec![];
            ciborium::into_writer(&t, &mut b).unwrap();
            self.hostile(c, &format!("{}: hostile binary structure", name), &b, said_cbor(&t).as_ref(), &format!("{:?}", what));
        }
        // hostile binary bytes
        let good = to_cbor(&x);
        for _ in 0..n {
            let mut b = good.clone();
            let how = match rng.next_u32() % 6 {
                0 => {
                    b.truncate(rng.next_u32() as usize % (b.len() + 1));
                    "truncated"
                }
                1 if !b.is_empty() => {
                    let i = rng.next_u32() as usize % b.len();
                    b[i] = rng.next_u32() as u8;
                    "byte changed"
                }
                2 if !b.is_empty() => {
                    let i = rng.next_u32() as usize % b.len().min(40);
                    b[i] ^= 1 << (rng.next_u32() % 8);
                    "bit flipped"
                }
                3 => {
                    let i = rng.next_u32() as usize % (b.len() + 1);
                    let heads: [&[u8]; 8] = [&[0x5b, 0, 0, 0, 0, 0xff, 0xff, 0xff, 0xff], &[0x9f], &[0xbf], &[0x5f], &[0xff], &[0xfb, 0, 0, 0, 0, 0, 0, 0, 0], &[0x1b, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff], &[0x9a, 0xff, 0xff, 0xff, 0xff]];
                    let h = heads[rng.next_u32() as usize % heads.len()];
                    b.splice(i..i, h.iter().copied());
                    "header inserted"
                }
                4 => {
                    let i = rng.next_u32() as usize % (b.len() + 1);
                    let j = i + rng.next_u32() as usize % (b.len() + 1 - i);
                    b.drain(i..j.min(i + 9));
                    "bytes cut out"
                }
                _ => {
                    b = vec![0; rng.next_u32() as usize % 80];
                    rng.fill_bytes(&mut b);
                    "random bytes"
                }
            };
            let said = ciborium::from_reader::<V, _>(&b[..]).ok().and_then(|v| said_cbor(&v));
            self.hostile(c, &format!("{}: hostile bytes", name), &b, said.as_ref(), how);
        }
        // hostile JSON
        let js = to_json(&x);
        let ls = super::zkforge::leaves(&js);
        for _ in 0..n {
            let mut j = js.clone();
            let l = &ls[rng.next_u32() as usize % ls.len()];
            let node = j.pointer_mut(l).unwrap();
            let (v, how) = match &*node {
                J::String(s) => twist_json(s, rng),
                J::Number(_) => {
                    let all = ["0", "1", "-1", "7", "31", "255", "256", "1.5", "4294967295", "4294967296", "18446744073709551615", "1e30"];
                    let t = all[rng.next_u32() as usize % all.len()];
                    (serde_json::from_str(t).unwrap(), format!("number {}", t))
                }
                J::Bool(b) => (J::Bool(!b), "flipped".into()),
                _ => (serde_json::json!("0x00"), "replaced".into()),
            };
            *node = v;
            c.count(&format!("{}: hostile JSON", name));
            c.distinct(format!("{}{}{}", name, l, j).as_bytes());
            let r = no_panic(|| from_json::<T>(&j).and_then(|v| (self.judge)(&v, Some(&j)).map(|_| v).map_err(|e| format!("INVARIANT {}", e))));
            self.verdict(c, "hostile JSON", r, &format!("{} {}", l, how), &j.to_string());
        }
    }
    fn hostile(&self, c: &Ctx, kind: &str, b: &[u8], said: Option<&J>, how: &str) {
        c.count(kind);
        c.distinct(&[self.name.as_bytes(), b].concat());
        let r = no_panic(|| from_cbor::<T>(b).and_then(|v| (self.judge)(&v, said).map(|_| v).map_err(|e| format!("INVARIANT {}", e))));
        self.verdict(c, kind.split(": ").nth(1).unwrap(), r, how, &hexs(b));
    }
    fn verdict(&self, c: &Ctx, kind: &str, r: Result<Result<T, String>, String>, how: &str, input: &str) {
        match r {
            Err(p) => c.violation(&format!("{}: {}: panic", self.name, kind), "decoding panics", format!("{} | {} | {}", p, how, short(input, 3000))),
            Ok(Err(e)) if e.starts_with("INVARIANT") => c.violation(&format!("{}: {}: absorbed", self.name, kind), "an ill-formed encoding decodes to a value that breaks an invariant", format!("{} | {} | {}", e, how, short(input, 3000))),
            Ok(Err(e)) => {
                c.count("refused");
                c.sample(&format!("{} refused", self.name), format!("{}: {}", how, short(&e, 200)));
            }
            Ok(Ok(v)) => {
                c.count("decoded; invariants hold");
                // what was absorbed must be stable
                let r = no_panic(|| {
                    let again: T = from_cbor(&to_cbor(&v))?;
                    if (self.view)(&again) != (self.view)(&v) {
                        return Err("the decoded value does not survive a round trip".to_string());
                    }
                    Ok(())
                });
                if let Err(e) | Ok(Err(e)) = r {
                    c.violation(&format!("{}: {}: unstable", self.name, kind), "a decoded value cannot be encoded and decoded again", format!("{} | {} | {}", e, how, short(input, 3000)));
                }
            }
        }
    }
}

fn special(rng: &mut Rng, k: u32, bits: u32) -> Nat {
    match k % 8 {
        0 => Nat::zero(),
        1 => Nat::one(),
        2 => Nat::pow2(bits).sub(&Nat::one()),
        3 => Nat::pow2(bits - 1),
        4 => Nat::pow2(rng.next_u32() % bits),
        5 => {
            let b = 1 + rng.next_u32() % bits;
            Nat::random_bits(rng, b)
        }
        _ => Nat::random_bits(rng, bits),
    }
}

fn uint_type<T>(name: &str) -> Type<PublicUint<T>>
where
    T: BoxedEncoding + Bounded + Debug + 'static,
{
    Type {
        name: name.into(),
        make: Box::new(|rng, k| PublicUint::from(nb::<T>(&special(rng, k, T::BITS)))),
        view: Box::new(|x| format!("{:?}", bn(&**x))),
        judge: Box::new(|x, said| match said.and_then(hexnum) {
            Some(n) if bn(&**x) != n => Err(format!("the encoding says {:?}, the value is {:?}", n, bn(&**x))),
            _ => Ok(()),
        }),
    }
}

fn signed_type<T>(name: &str) -> Type<PublicSigned<T>>
where
    T: BoxedEncoding + Bounded + Integer + Debug + 'static,
{
    Type {
        name: name.into(),
        make: Box::new(|rng, k| {
            let bound = [0, 1, 7, 8, 9, T::BITS - 1, T::BITS - 2, 1 + rng.next_u32() % (T::BITS - 1)][(k % 8) as usize];
            let v = if bound == 0 { Nat::zero() } else { special(rng, k >> 3, bound) };
            mk_public(&Int::new(k >> 20 & 1 == 1, v), bound)
        }),
        view: Box::new(|x| format!("{:?} bound {}", pval(x), x.bound())),
        judge: Box::new(|x, said| {
            let v = pval(x);
            if x.bound() >= T::BITS || !v.mag.fits(x.bound()) {
                return Err(format!("{:?} is not below 2^{} in {} bits", v, x.bound(), T::BITS));
            }
            if let Some(s) = said {
                if let (Some(b), Some(n), Some(m)) = (s["bound"].as_u64(), s["is_negative"].as_bool(), hexnum(&s["abs_bytes"])) {
                    if b != x.bound() as u64 || v != Int::new(n, m.clone()) {
                        return Err(format!("the encoding says {}{:?} bound {}, the value is {:?} bound {}", if n { "-" } else { "" }, m, b, v, x.bound()));
                    }
                }
            }
            Ok(())
        }),
    }
}

fn scalar_type<P: SchemeParams>(name: &str) -> Type<Scalar<P>> {
    let c = curve_of::<P>();
    let c2 = c.clone();
    Type {
        name: name.into(),
        make: Box::new(move |rng, k| {
            let one = Nat::one();
            let v = match k % 6 {
                0 => Nat::zero(),
                1 => one,
                2 => c.n.sub(&one),
                _ => Nat::random_below(rng, &c.n),
            };
            mk_sc(&c, &v)
        }),
        view: Box::new(|x| format!("{:?}", sc(x))),
        judge: Box::new(move |x, said| {
            let v = sc(x);
            if v >= c2.n {
                return Err(format!("non-canonical scalar {:?}", v));
            }
            match said.and_then(hexnum) {
                Some(n) if n != v => Err(format!("the encoding says {:?}, the scalar is {:?}", n, v)),
                _ => Ok(()),
            }
        }),
    }
}

fn point_type<P: SchemeParams>(name: &str) -> Type<Point<P>> {
    let c = curve_of::<P>();
    let c2 = c.clone();
    Type {
        name: name.into(),
        make: Box::new(move |rng, k| {
            let v = match k % 6 {
                0 => Nat::zero(),
                1 => Nat::one(),
                _ => Nat::random_below(rng, &c.n),
            };
            mk_sc::<P>(&c, &v).mul_by_generator()
        }),
        view: Box::new(|x| format!("{:?}", aff(x))),
        judge: Box::new(move |x, said| {
            let a = aff(x);
            if let Some(p) = &a {
                if !c2.on_curve(p) {
                    return Err(format!("{:?} is not on the curve", p));
                }
            }
            let Some(b) = said.and_then(|s| hexnum(s).map(|_| unhex(s.as_str().unwrap()))) else { return Ok(()) };
            let ok = match (&a, b.first()) {
                (None, _) => b.iter().all(|x| *x == 0),
                (Some((px, py)), Some(t @ (2 | 3))) => b.len() == c2.len + 1 && Nat::from_be(&b[1..]) == *px && py.is_odd() == (*t == 3),
                (Some((px, py)), Some(4)) => b.len() == 2 * c2.len + 1 && Nat::from_be(&b[1..=c2.len]) == *px && Nat::from_be(&b[1 + c2.len..]) == *py,
                (Some((px, _)), Some(5)) => b.len() == c2.len + 1 && Nat::from_be(&b[1..]) == *px,
                _ => false,
            };
            if !ok {
                return Err(format!("the bytes {} decode to {:?}", hexs(&b), a));
            }
            Ok(())
        }),
    }
}

fn unbase64(s: &str) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut acc = 0u32;
    let mut n = 0;
    for ch in s.trim_end_matches('=').bytes() {
        let v = match ch {
            b'A'..=b'Z' => ch - b'A',
            b'a'..=b'z' => ch - b'a' + 26,
            b'0'..=b'9' => ch - b'0' + 52,
            b'+' | b'-' => 62,
            b'/' | b'_' => 63,
            _ => return None,
        };
        acc = (acc << 6 | v as u32) & 0xffffff;
        n += 6;
        if n >= 8 {
            n -= 8;
            out.push((acc >> n) as u8);
        }
    }
    Some(out)
}

fn bitvec_type() -> Type<BitVec> {
    Type {
        name: "bit vector".into(),
        make: Box::new(|rng, k| BitVec::random(rng, [0, 1, 7, 8, 9, 16, 128, 1 + (k >> 8) as usize % 300][(k % 8) as usize])),
        view: Box::new(|x| format!("{:?}", x.bits())),
        judge: Box::new(|x, said| {
            let Some(s) = said else { return Ok(()) };
            let Some(n) = s["bits"].as_u64() else { return Ok(()) };
            if x.bits().len() as u64 != n {
                return Err(format!("{} bits declared, {} decoded", n, x.bits().len()));
            }
            let bytes = match s["byte_vec"].as_str() {
                Some(h) if s["#binary"].is_boolean() => match h.strip_prefix("0x") {
                    Some(_) => unhex(h),
                    None => return Ok(()),
                },
                Some(t) => match unbase64(t) {
                    Some(b) => b,
                    None => return Ok(()),
                },
                None => return Ok(()),
            };
            if bytes.len() * 8 < n as usize {
                return Err(format!("{} bits decoded from {} bytes", n, bytes.len()));
            }
            for (i, b) in x.bits().iter().enumerate() {
                if (bytes[i / 8] >> (7 - i % 8) & 1 == 1) != *b {
                    return Err(format!("bit {} of {} is {}", i, hexs(&bytes), b));
                }
            }
            Ok(())
        }),
    }
}

fn odd(n: &Nat) -> Result<(), String> {
    if n.is_odd() {
        Ok(())
    } else {
        Err(format!("the modulus {:?} is zero or even", n))
    }
}

fn pk_type<P: PaillierParams>(name: &str) -> Type<PublicKeyPaillierWire<P>> {
    Type {
        name: name.into(),
        make: Box::new(|rng, k| {
            let mut n = special(rng, 4 + k % 4, P::Uint::BITS);
            if !n.is_odd() {
                n = n.add(&Nat::one());
            }
            if k % 11 == 0 {
                n = Nat::one();
            }
            from_json(&serde_json::json!({"modulus": hex0x(&n.to_be_padded(P::Uint::BYTES))})).expect("odd modulus")
        }),
        view: Box::new(|x| format!("{:?}", bn(x.modulus()))),
        judge: Box::new(|x, said| {
            let n = bn(x.modulus());
            odd(&n)?;
            if let Some(m) = said.and_then(|s| hexnum(&s["modulus"])) {
                if m != n {
                    return Err(format!("the encoding says {:?}, the modulus is {:?}", m, n));
                }
            }
            let pk = x.clone().into_precomputed();
            if bn(pk.modulus()) != n {
                return Err("the precomputed key has another modulus".into());
            }
            Ok(())
        }),
    }
}

fn rp_type<S: SchemeParams>(name: &str) -> Type<RPParamsWire<Pp<S>>> {
    Type {
        name: name.into(),
        make: Box::new(|rng, _| {
            let st = Setup::random(rng, 40);
            from_json(&st.json::<S>()).unwrap()
        }),
        view: Box::new(|x| {
            let p = x.clone().to_precomputed();
            format!("{:?} {:?} {:?}", bn(p.modulus()), p.base_randomizer(), p.base_value())
        }),
        judge: Box::new(|x, said| {
            let p = x.clone().to_precomputed();
            let n = bn(p.modulus());
            odd(&n)?;
            if let Some(s) = said {
                use crypto_bigint::modular::Retrieve;
                for (k, got) in [("base_randomizer", bn(&p.base_randomizer().retrieve())), ("base_value", bn(&p.base_value().retrieve()))] {
                    if let Some(want) = hexnum(&s[k]) {
                        if want.rem(&n) != got {
                            return Err(format!("the encoding says {} = {:?}, the value is {:?} modulo {:?}", k, want, got, n));
                        }
                    }
                }
                if let Some(m) = hexnum(&s["modulus"]) {
                    if m != n {
                        return Err(format!("the encoding says modulus {:?}, the value is {:?}", m, n));
                    }
                }
            }
            Ok(())
        }),
    }
}

fn ct_type<S: SchemeParams>(name: &str) -> Type<CiphertextWire<Pp<S>>> {
    let key = std::sync::Arc::new(PKey::<S>::small(&mut rng_for("c03/ct", 0), Pp::<S>::PRIME_BITS));
    let (k1, k2, k3) = (key.clone(), key.clone(), key);
    Type {
        name: name.into(),
        make: Box::new(move |rng, k| {
            let v = special(rng, k, <Wui<S> as Bounded>::BITS).rem(&k1.n.mul(&k1.n));
            from_json(&ct_json::<S>(&v)).unwrap()
        }),
        view: Box::new(move |x| format!("{:?}", ct_num(&to_json(&x.to_precomputed(&k2.pk()).to_wire())))),
        judge: Box::new(move |x, said| {
            let got = ct_num(&to_json(&x.to_precomputed(&k3.pk()).to_wire()));
            match said.and_then(|s| hexnum(&s["ciphertext"])) {
                Some(n) if n.rem(&k3.n.mul(&k3.n)) != got => Err(format!("the encoding says {:?}, the ciphertext is {:?}", n, got)),
                _ => Ok(()),
            }
        }),
    }
}

fn commitment_type<S: SchemeParams>(name: &str) -> Type<RPCommitmentWire<Pp<S>>> {
    let st = std::sync::Arc::new(Setup::random(&mut rng_for("c03/rp", 0), Pp::<S>::PRIME_BITS));
    let (s1, s2) = (st.clone(), st);
    Type {
        name: name.into(),
        make: Box::new(|rng, k| from_json(&uint_json::<S>(&special(rng, k, <Ui<S> as Bounded>::BITS))).unwrap()),
        view: Box::new(|x| format!("{:?}", x)),
        judge: Box::new(move |x, said| {
            let rp = rp_of::<S>(&s1.json::<S>())?;
            let got = num(&to_json(&x.to_precomputed(&rp).to_wire()));
            match said.and_then(hexnum) {
                Some(n) if n.rem(&s2.n) != got => Err(format!("the encoding says {:?}, the commitment is {:?}", n, got)),
                _ => Ok(()),
            }
        }),
    }
}

fn hash_type() -> Type<HashOutput> {
    Type {
        name: "hash output".into(),
        make: Box::new(|rng, k| {
            let x = rng.next_u64();
            Hasher::<sha3::Shake256>::new_with_dst(b"c03").chain(&x).finalize([1, 7, 16, 64, 128][(k % 5) as usize])
        }),
        view: Box::new(|x| format!("{:?}", x)),
        judge: Box::new(|x, said| {
            // the only account of its bytes is Debug; compare lengths through the other format
            let j = to_json(x);
            match said {
                Some(s) if s.as_str().is_some_and(|t| t.starts_with("0x")) && hexnum(s).is_some() && s.as_str().unwrap().to_lowercase() != j.as_str().unwrap() => {
                    Err(format!("the encoding says {}, the value is {}", s, j))
                }
                _ => Ok(()),
            }
        }),
    }
}

fn secret_type<T>(name: &str) -> Type<Secret<T>>
where
    T: BoxedEncoding + Bounded + Debug + zeroize::Zeroize + Clone + 'static,
{
    Type {
        name: name.into(),
        make: Box::new(|rng, k| {
            let v = nb::<T>(&special(rng, k, T::BITS));
            Secret::init_with(|| v)
        }),
        view: Box::new(|x| format!("{:?}", bn(x.expose_secret()))),
        judge: Box::new(|x, said| match said.and_then(hexnum) {
            Some(n) if bn(x.expose_secret()) != n => Err(format!("the encoding says {:?}, the value is {:?}", n, bn(x.expose_secret()))),
            _ => Ok(()),
        }),
    }
}

fn secret_scalar_type<P: SchemeParams>(name: &str) -> Type<Secret<Scalar<P>>> {
    let t = scalar_type::<P>(name);
    let (m, v, j) = (t.make, t.view, t.judge);
    Type {
        name: name.into(),
        make: Box::new(move |rng, k| {
            let s = m(rng, k);
            Secret::init_with(|| s)
        }),
        view: Box::new(move |x| v(x.expose_secret())),
        judge: Box::new(move |x, said| j(x.expose_secret(), said)),
    }
}

/// A whole proof: Debug shows every field, none of which is secret.
fn proof_type<S: SchemeParams, T: Wire + 'static>(kind: Kind, w: &'static World<S>) -> Type<T> {
    Type {
        name: format!("{} proof", kind.name()),
        make: Box::new(move |rng, k| {
            let case = Case::<S>::new(w, kind, rng, k % 9, (k >> 4) % 9, 63, 3);
            let aux = Aux::random(rng);
            let p = case.prove(rng, &aux).expect("honest proof");
            from_json(&p).expect("honest proof decodes")
        }),
        view: Box::new(|x| format!("{:?}", x)),
        judge: Box::new(|_, _| Ok(())),
    }
}

/// Encodings around the order and the field size.
fn boundaries<P: SchemeParams>(c: &Ctx, name: &str, idx: u64) {
    let cv = curve_of::<P>();
    let rng = &mut rng_for(&format!("c03/boundary/{}", name), idx);
    let (st, pt) = (scalar_type::<P>(&format!("{} scalar", name)), point_type::<P>(&format!("{} point", name)));
    let one = Nat::one();
    let full = Nat::pow2(8 * cv.len as u32);
    for k in 0..12u64 {
        for (base, from) in [(&cv.n, "order"), (&cv.p, "field"), (&full, "length")] {
            for v in [base.add(&Nat::from(k)), base.sub(&Nat::from(k + 1)), base.shl(k as u32), base.mul(&Nat::from(k)).add(&Nat::random_below(rng, base)), base.sub(&one).sub(&Nat::random_bits(rng, 8))] {
                if v >= full {
                    continue;
                }
                let b = v.to_be_padded(cv.len);
                st.hostile(c, &format!("{} scalar: boundary encoding", name), &to_cbor(&V::Bytes(b.clone())), Some(&J::String(hex0x(&b))), from);
                for tag in 0..=7u8 {
                    let mut e = vec![tag];
                    e.extend(&b);
                    pt.hostile(c, &format!("{} point: boundary encoding", name), &to_cbor(&V::Bytes(e.clone())), Some(&J::String(hex0x(&e))), from);
                    let y = Nat::random_below(rng, &full).to_be_padded(cv.len);
                    e.extend(&y);
                    pt.hostile(c, &format!("{} point: boundary encoding", name), &to_cbor(&V::Bytes(e.clone())), Some(&J::String(hex0x(&e))), from);
                }
            }
        }
    }
    // uncompressed, hybrid and unreduced forms of genuine points
    let k = Nat::random_below(rng, &cv.n).add(&one);
    if let Some((x, y)) = cv.mul(&k, &cv.gen()) {
        let (other, wrong) = (cv.p.sub(&y), y.add(&one));
        for (px, py) in [(&x, &y), (&x, &other), (&x, &wrong), (&x.add(&cv.p), &y), (&x, &y.add(&cv.p)), (&y, &x)] {
            if *px >= full || *py >= full {
                continue;
            }
            for tag in 0..=7u8 {
                let c1 = [vec![tag], px.to_be_padded(cv.len)].concat();
                let c2 = [c1.clone(), py.to_be_padded(cv.len)].concat();
                for e in [c1, c2] {
                    pt.hostile(c, &format!("{} point: other forms", name), &to_cbor(&V::Bytes(e.clone())), Some(&J::String(hex0x(&e))), "form of a genuine point");
                }
            }
        }
    }
    for n in 0..3 * cv.len {
        let e = vec![0u8; n];
        pt.hostile(c, &format!("{} point: zeros", name), &to_cbor(&V::Bytes(e.clone())), Some(&J::String(hex0x(&e))), "zeros");
        st.hostile(c, &format!("{} scalar: zeros", name), &to_cbor(&V::Bytes(e.clone())), Some(&J::String(hex0x(&e))), "zeros");
    }
}

// --- what a party stores between sessions, and the parts of resharing messages

fn some_point<S: SchemeParams>(rng: &mut Rng, k: u32) -> Point<S> {
    match k % 8 {
        0 => Point::identity(),
        1 => Point::generator(),
        _ => some_scalar::<S>(rng, k / 8).mul_by_generator(),
    }
}
fn some_scalar<S: SchemeParams>(rng: &mut Rng, k: u32) -> Scalar<S> {
    let c = curve_of::<S>();
    mk_sc::<S>(&c, &match k % 6 {
        0 => Nat::zero(),
        1 => Nat::one(),
        2 => c.n.sub(&Nat::one()),
        _ => Nat::random_below(rng, &c.n),
    })
}
fn secret_scalar<S: SchemeParams>(x: Scalar<S>) -> Secret<Scalar<S>> {
    Secret::init_with(|| x)
}
fn show_points<'a, S: SchemeParams, Id: Tid>(m: impl Iterator<Item = (&'a Id, &'a Point<S>)>) -> String {
    m.map(|(i, p)| format!("{:?}: {:?}, ", i, aff::<S>(p))).collect()
}
fn points_of<S: SchemeParams, Id: Tid>(rng: &mut Rng, ids: &BTreeSet<Id>) -> BTreeMap<Id, Point<S>> {
    ids.iter()
        .map(|i| {
            let k = rng.next_u32();
            (i.clone(), some_point::<S>(rng, k))
        })
        .collect()
}
fn owner_of<Id: Tid>(rng: &mut Rng, ids: &BTreeSet<Id>) -> Id {
    ids.iter().nth(rng.next_u32() as usize % ids.len()).unwrap().clone()
}
fn own<T: Wire>(name: String, make: impl Fn(&mut Rng, u32) -> T + Sync + 'static, view: impl Fn(&T) -> String + Sync + 'static) -> Type<T> {
    Type { name, make: Box::new(make), view: Box::new(view), judge: Box::new(|_, _| Ok(())) }
}
fn share_type<S: SchemeParams, Id: Tid>(name: &str) -> Type<KeyShare<S, Id>> {
    own(
        format!("{} key share", name),
        |rng, k| {
            let ids = Id::many(rng, 1 + k as usize % 6);
            let all = KeyShare::<S, Id>::new_centralized(rng, &ids, None);
            all[&owner_of(rng, &ids)].clone()
        },
        |x| format!("{:?} {:?} {}", x.owner(), sc::<S>(x.secret_share().expose_secret()), show_points::<S, Id>(x.public_shares().iter())),
    )
}
fn public_shares_type<S: SchemeParams, Id: Tid>(name: &str) -> Type<PublicKeyShares<S, Id>> {
    own(
        format!("{} public key shares", name),
        |rng, k| {
            let ids = Id::many(rng, 1 + k as usize % 6);
            KeyShare::<S, Id>::new_centralized(rng, &ids, None)[&owner_of(rng, &ids)].public().clone()
        },
        |x| show_points::<S, Id>(x.as_map().iter()),
    )
}
fn threshold_type<S: SchemeParams, Id: Tid>(name: &str) -> Type<ThresholdKeyShare<S, Id>> {
    own(
        format!("{} threshold key share", name),
        |rng, k| {
            let ids = Id::many(rng, 1 + k as usize % 6);
            let mut t = ThresholdKeyShare::<S, Id>::new_centralized(rng, &ids, 1 + (k >> 8) as usize % ids.len(), None).expect("deals")[&owner_of(rng, &ids)].clone();
            if k >> 20 & 1 == 1 {
                t.secret_share = secret_scalar(some_scalar::<S>(rng, k >> 16));
                t.public_shares = points_of::<S, Id>(rng, &ids).into();
                t.threshold = rng.next_u32();
                t.share_ids = ids.iter().map(|i| (i.clone(), ShareId::new(rng.next_u32() as u64 & 0x7fff_ffff))).collect::<BTreeMap<_, _>>().into();
            }
            t
        },
        |x| {
            let ids: String = x.share_ids.iter().map(|(i, s)| format!("{:?}: {:?}, ", i, s)).collect();
            format!("{:?} {} {:?} {} {}", x.owner, x.threshold, sc::<S>(x.secret_share.expose_secret()), ids, show_points::<S, Id>(x.public_shares.iter()))
        },
    )
}
fn change_type<S: SchemeParams, Id: Tid>(name: &str) -> Type<KeyShareChange<S, Id>> {
    own(
        format!("{} key share change", name),
        |rng, k| {
            let ids = Id::many(rng, 1 + k as usize % 6);
            KeyShareChange { owner: owner_of(rng, &ids), secret_share_change: secret_scalar(some_scalar::<S>(rng, k >> 8)), public_share_changes: points_of::<S, Id>(rng, &ids).into() }
        },
        |x| format!("{:?} {:?} {}", x.owner, sc::<S>(x.secret_share_change.expose_secret()), show_points::<S, Id>(x.public_share_changes.iter())),
    )
}
fn show_public_aux<S: SchemeParams, Id: Tid>(x: &PublicAuxInfos<S, Id>) -> String {
    x.as_map().iter().map(|(i, a)| format!("{:?}: {:?} {:?}, ", i, a.paillier_pk, a.rp_params)).collect()
}
/// Aux data of one dealing (the same keys for all values: making them is slow).
fn aux_types<S: SchemeParams, Id: Tid>(name: &str) -> (Type<AuxInfo<S, Id>>, Type<PublicAuxInfos<S, Id>>) {
    let rng = &mut rng_for(&format!("c03/aux/{}", name), 0);
    let ids = Id::many(rng, 4);
    let all: &'static BTreeMap<Id, AuxInfo<S, Id>> = Box::leak(Box::new(quick_aux::<S, Id>(rng, &ids)));
    let some = move |rng: &mut Rng, k: u32| {
        let a = all.values().nth(rng.next_u32() as usize % 4).unwrap().clone();
        let mut set: BTreeSet<Id> = all.keys().enumerate().filter(|(i, _)| k >> i & 1 == 1).map(|(_, id)| id.clone()).collect();
        set.insert(a.owner().clone());
        a.subset(&set).expect("a subset")
    };
    (
        own(format!("{} aux data", name), some, |x| {
            format!("{:?} {:?} {}", x.owner, primes_of(&x.secret.paillier_sk), show_public_aux(&x.public))
        }),
        own(format!("{} public aux data", name), move |rng, k| some(rng, k).public().clone(), show_public_aux),
    )
}

pub fn main() -> i32 {
    let c = Ctx::new("C03");
    type S = TestParams;
    type P = ProductionParams112;
    let rng = &mut rng_for("c03/world", 0);
    let w: &'static World<S> = Box::leak(Box::new(World::<S>::new(rng, true)));
    let mut checks: Vec<(u64, Box<dyn Fn(&Ctx, u64) + Sync>)> = vec![];
    macro_rules! add {
        ($n:expr, $t:expr) => {{
            let t = $t;
            checks.push(($n, Box::new(move |c: &Ctx, i: u64| t.check(c, i))));
        }};
    }
    let many = scale(300, 3000);
    add!(many, uint_type::<crypto_bigint::Uint<1>>("64-bit uint"));
    add!(many, uint_type::<Ui<S>>("test uint"));
    add!(many, uint_type::<Wui<S>>("test wide uint"));
    add!(many, uint_type::<Ui<P>>("production uint"));
    add!(many, uint_type::<Wui<P>>("production wide uint"));
    add!(many, signed_type::<crypto_bigint::Uint<1>>("64-bit signed"));
    add!(many, signed_type::<Ui<S>>("test signed"));
    add!(many, signed_type::<Wui<S>>("test wide signed"));
    add!(many, signed_type::<<S as SchemeParams>::ExtraWideUint>("test extra wide signed"));
    add!(many, signed_type::<Ui<P>>("production signed"));
    add!(many, signed_type::<<P as SchemeParams>::ExtraWideUint>("production extra wide signed"));
    add!(many, scalar_type::<S>("tiny scalar"));
    add!(many, scalar_type::<P>("secp256k1 scalar"));
    add!(many, point_type::<S>("tiny point"));
    add!(many, point_type::<P>("secp256k1 point"));
    add!(many, bitvec_type());
    add!(many, hash_type());
    add!(many, secret_type::<Ui<S>>("secret uint"));
    add!(many, secret_type::<Ui<P>>("secret production uint"));
    add!(many, secret_scalar_type::<S>("secret tiny scalar"));
    add!(many, secret_scalar_type::<P>("secret secp256k1 scalar"));
    add!(many, pk_type::<Pp<S>>("test Paillier key"));
    add!(many / 4, pk_type::<Pp<P>>("production Paillier key"));
    add!(many, rp_type::<S>("test ring-Pedersen setup"));
    add!(many / 4, rp_type::<P>("production ring-Pedersen setup"));
    add!(many / 2, ct_type::<S>("test ciphertext"));
    add!(many / 8, ct_type::<P>("production ciphertext"));
    add!(many / 2, commitment_type::<S>("test commitment"));
    add!(many, own("tiny public polynomial".into(), |rng, k| {
        let s = secret_scalar(some_scalar::<S>(rng, k));
        Polynomial::<S>::random(rng, s, 1 + (k >> 8) as usize % 5).public()
    }, |x| to_json(x).as_array().unwrap().iter().map(|p| format!("{:?} ", aff::<S>(&pt::<S>(p)))).collect()));
    add!(many, own("secp256k1 share ID".into(), |rng, k| ShareId::<P>::new(if k % 2 == 0 { rng.next_u64() } else { (k >> 1) as u64 % 4 }), |x| format!("{:?}", x)));
    add!(many / 4, share_type::<S, u32>("tiny"));
    add!(many / 4, share_type::<P, String>("secp256k1"));
    add!(many / 4, public_shares_type::<S, String>("tiny"));
    add!(many / 4, threshold_type::<S, u32>("tiny"));
    add!(many / 4, threshold_type::<P, String>("secp256k1"));
    add!(many / 4, change_type::<S, u32>("tiny"));
    add!(many / 4, change_type::<P, String>("secp256k1"));
    let (a, b) = aux_types::<S, u32>("test, number ids");
    add!(many / 8, a);
    add!(many / 8, b);
    let (a, b) = aux_types::<S, String>("test, string ids");
    add!(many / 8, a);
    add!(many / 8, b);
    let few = scale(6, 120);
    add!(4 * few, proof_type::<S, SchProof<S>>(Kind::Sch, w));
    add!(4 * few, proof_type::<S, ElogProof<S>>(Kind::Elog, w));
    add!(few, proof_type::<S, PrmProof<S>>(Kind::Prm, w));
    add!(few, proof_type::<S, ModProof<S>>(Kind::Mod, w));
    add!(4 * few, proof_type::<S, FacProof<S>>(Kind::Fac, w));
    add!(4 * few, proof_type::<S, EncElgProof<S>>(Kind::Enc, w));
    add!(few, proof_type::<S, DecProof<S>>(Kind::Dec, w));
    add!(4 * few, proof_type::<S, AffGProof<S>>(Kind::AffG, w));
    add!(few, proof_type::<S, AffGStarProof<S>>(Kind::AffStar, w));
    add!(many, Type::<SchCommitment<S>> {
        name: "Schnorr commitment".into(),
        make: Box::new(|rng, _| from_json(&to_json(&SchCommitment::new(&SchSecret::<S>::random(rng)))).expect("decodes")),
        view: Box::new(|x| format!("{:?}", x)),
        judge: Box::new(|_, _| Ok(())),
    });
    let mut jobs = vec![];
    for (k, (n, _)) in checks.iter().enumerate() {
        for i in 0..*n {
            jobs.push((k, i));
        }
    }
    let rng = &mut rng_for("c03/order", 0);
    for i in (1..jobs.len()).rev() {
        jobs.swap(i, rng.next_u64() as usize % (i + 1));
    }
    c.par(jobs.len() as u64, |j| {
        let (k, i) = jobs[j as usize];
        checks[k].1(&c, i);
    });
    c.par(scale(20, 200), |i| {
        boundaries::<S>(&c, "tiny", i);
        boundaries::<P>(&c, "secp256k1", i);
    });
    // secret keys: only round trips (a party's own stored data)
    c.par(scale(4, 40), |i| {
        let rng = &mut rng_for("c03/sk", i);
        let sk = SecretKeyPaillierWire::<Pp<S>>::random(rng);
        let ps = primes_of(&sk);
        c.case("secret Paillier key: round trip", &|| format!("{:?}", ps), || {
            let a: SecretKeyPaillierWire<Pp<S>> = from_cbor(&to_cbor(&sk))?;
            let b: SecretKeyPaillierWire<Pp<S>> = from_json(&to_json(&sk))?;
            let n = bn(sk.clone().into_precomputed().public_key().modulus());
            for k in [a, b] {
                if primes_of(&k) != ps || bn(k.into_precomputed().public_key().modulus()) != n {
                    return Err("another key".into());
                }
            }
            Ok(())
        });
    });
    c.finish(
        "an evaluation is one round trip or one decoding of a hostile encoding (structure, bytes or JSON text); distinct = distinct (type, encoding)",
        &["For what a party stores itself (key shares, aux data) only the parts' invariants are judged, not that they fit each other.",
          "More than one accepted encoding of a value (leading zeros, surplus bytes of a bit vector, uncompressed points) is not a violation as long as the value is what the encoding says."],
    )
}
