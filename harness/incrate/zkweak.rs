// A parameter set whose digest ignores its input: over it every proof "has the right challenge", so a verdict is decided
// by the structural and algebraic checks alone; and the harness's own evaluation of those (shape, group membership,
// ranges, equations).
use std::cell::Cell;
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::util::*;
use super::zkeq::*;
use super::zkfix::*;
use super::zkforge::*;
use crate::dev::TestParams;
use crate::params::SchemeParams;
use digest::{ExtendableOutput, Update, XofReader};

std::thread_local! {
    pub static STREAM: Cell<(u64, u8)> = const { Cell::new((0, 0)) };
}

/// A digest that ignores what it is given.
#[derive(Default, Clone)]
pub struct Oblivious;
pub struct ObliviousReader(Rng, u8, usize);
impl Update for Oblivious {
    fn update(&mut self, _data: &[u8]) {}
}
impl ExtendableOutput for Oblivious {
    type Reader = ObliviousReader;
    fn finalize_xof(self) -> ObliviousReader {
        let (seed, mode) = STREAM.with(|s| s.get());
        ObliviousReader(rng_for("c14/oblivious", seed), mode, 0)
    }
}
impl XofReader for ObliviousReader {
    fn read(&mut self, buffer: &mut [u8]) {
        self.0.fill_bytes(buffer);
        // the beginning of the stream: random, all zero, all one
        for b in buffer.iter_mut() {
            if self.2 < 4 && self.1 == 1 {
                *b = 0;
            }
            if self.2 < 4 && self.1 == 2 {
                *b = 0xff;
            }
            self.2 += 1;
        }
    }
}

#[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Weak;
impl SchemeParams for Weak {
    type Curve = <TestParams as SchemeParams>::Curve;
    type Digest = Oblivious;
    const SECURITY_BITS: usize = TestParams::SECURITY_BITS;
    const SECURITY_PARAMETER: usize = TestParams::SECURITY_PARAMETER;
    const L_BOUND: u32 = TestParams::L_BOUND;
    const LP_BOUND: u32 = TestParams::LP_BOUND;
    const EPS_BOUND: u32 = TestParams::EPS_BOUND;
    type Paillier = <TestParams as SchemeParams>::Paillier;
    type ExtraWideUint = <TestParams as SchemeParams>::ExtraWideUint;
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Ty {
    /// residue modulo (the named modulus), number as a hex string
    Res(&'static str),
    /// ciphertext modulo the square of the named modulus
    Ct(&'static str),
    Pt,
    Sc,
    /// signed integer
    Sg,
    Bool,
    Bits,
    /// a plain exponent
    Exp,
}
pub use Ty::*;

/// Fields: (pointer; `*` stands for every index, type).
pub fn fields(kind: Kind) -> Vec<(&'static str, Ty)> {
    match kind {
        Kind::Sch => vec![("/challenge", Sc), ("/proof", Sc)],
        Kind::Elog => vec![("/e", Sc), ("/cap_a", Pt), ("/cap_n", Pt), ("/cap_b", Pt), ("/z", Sc), ("/u", Sc)],
        Kind::Prm => vec![("/commitment/*", Res("setup")), ("/challenge", Bits), ("/proof/*", Exp)],
        Kind::Mod => vec![
            ("/commitment", Res("pk0")),
            ("/challenge/*", Res("pk0")),
            ("/proof/*/x", Res("pk0")),
            ("/proof/*/a", Bool),
            ("/proof/*/b", Bool),
            ("/proof/*/z", Res("pk0")),
        ],
        Kind::Fac => vec![
            ("/e", Sg),
            ("/cap_p", Res("setup")),
            ("/cap_q", Res("setup")),
            ("/cap_a", Res("setup")),
            ("/cap_b", Res("setup")),
            ("/cap_t", Res("setup")),
            ("/z1", Sg),
            ("/z2", Sg),
            ("/w1", Sg),
            ("/w2", Sg),
            ("/v", Sg),
        ],
        Kind::Enc => vec![
            ("/e", Sc),
            ("/cap_s", Res("setup")),
            ("/cap_d", Ct("pk0")),
            ("/cap_y", Pt),
            ("/cap_z", Pt),
            ("/cap_t", Res("setup")),
            ("/z1", Sg),
            ("/w", Sc),
            ("/z2", Res("pk0")),
            ("/z3", Sg),
        ],
        Kind::Dec => vec![
            ("/e", Bits),
            ("/commitments/*/cap_a", Ct("pk0")),
            ("/commitments/*/cap_b", Pt),
            ("/commitments/*/cap_c", Pt),
            ("/elements/*/z", Sg),
            ("/elements/*/w", Sg),
            ("/elements/*/nu", Res("pk0")),
        ],
        Kind::AffG => vec![
            ("/e", Sc),
            ("/cap_a", Ct("pk0")),
            ("/cap_b_x", Pt),
            ("/cap_b_y", Ct("pk1")),
            ("/cap_e", Res("setup")),
            ("/cap_s", Res("setup")),
            ("/cap_f", Res("setup")),
            ("/cap_t", Res("setup")),
            ("/z1", Sg),
            ("/z2", Sg),
            ("/z3", Sg),
            ("/z4", Sg),
            ("/w", Res("pk0")),
            ("/w_y", Res("pk1")),
        ],
        Kind::AffStar => vec![
            ("/e", Bits),
            ("/commitments/*/cap_a", Ct("pk0")),
            ("/commitments/*/cap_r", Pt),
            ("/commitments/*/cap_b", Ct("pk1")),
            ("/elements/*/z", Sg),
            ("/elements/*/z_prime", Sg),
            ("/elements/*/w", Res("pk0")),
            ("/elements/*/lambda", Res("pk1")),
        ],
    }
}

pub fn pub_fields(kind: Kind) -> Vec<(&'static str, &'static str, Ty)> {
    let setup = || vec![("setup", "/base_randomizer", Res("setup")), ("setup", "/base_value", Res("setup"))];
    let mut out = match kind {
        Kind::Sch => vec![("commitment", "", Pt), ("cap_x", "", Pt)],
        Kind::Elog => vec![("l", "", Pt), ("m", "", Pt), ("x", "", Pt), ("y", "", Pt), ("h", "", Pt)],
        Kind::Prm | Kind::Mod | Kind::Fac => vec![],
        Kind::Enc => vec![("c", "", Ct("pk0")), ("a", "", Pt), ("b", "", Pt), ("x", "", Pt)],
        Kind::Dec => vec![("k", "", Ct("pk0")), ("d", "", Ct("pk0")), ("x", "", Pt), ("s", "", Pt), ("g", "", Pt)],
        Kind::AffG | Kind::AffStar => vec![("c", "", Ct("pk0")), ("d", "", Ct("pk0")), ("y", "", Ct("pk1")), ("x", "", Pt)],
    };
    if matches!(kind, Kind::Prm | Kind::Fac | Kind::Enc | Kind::Dec | Kind::AffG) {
        out.extend(setup());
    }
    out
}

/// Concrete pointers of a field in a proof.
pub fn expand(j: &J, ptr: &str) -> Vec<String> {
    match ptr.split_once("/*") {
        None => vec![ptr.into()],
        Some((a, b)) => {
            let n = j.pointer(a).and_then(|x| x.as_array()).map_or(0, |x| x.len());
            (0..n).map(|i| format!("{}/{}{}", a, i, b)).collect()
        }
    }
}

pub fn modulus(pubs: &Pubs, m: &str) -> Nat {
    num(&pubs[m]["modulus"])
}

pub fn bits_json(bits: &[bool], surplus: usize) -> J {
    let mut bytes = vec![0u8; bits.len().div_ceil(8) + surplus];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            bytes[i / 8] |= 0x80 >> (i % 8);
        }
    }
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut s = String::new();
    for ch in bytes.chunks(3) {
        let v = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for k in 0..=ch.len() {
            s.push(A[(v >> (18 - 6 * k)) as usize & 63] as char);
        }
    }
    serde_json::json!({"bits": bits.len(), "byte_vec": s})
}

pub fn shape_ok<S: SchemeParams>(kind: Kind, f: &J) -> bool {
    let len = |k: &str| f[k].as_array().map_or(0, |x| x.len());
    match kind {
        Kind::Prm => len("commitment") == S::SECURITY_BITS && len("proof") == S::SECURITY_BITS && bits_of(&f["challenge"]).len() == S::SECURITY_BITS,
        Kind::Mod => len("challenge") == S::SECURITY_BITS && len("proof") == S::SECURITY_BITS,
        Kind::Dec | Kind::AffStar => {
            len("commitments") == S::SECURITY_PARAMETER && len("elements") == S::SECURITY_PARAMETER && bits_of(&f["e"]).len() == S::SECURITY_PARAMETER
        }
        _ => true,
    }
}

/// The first ring element that is not a unit.
pub fn non_unit(kind: Kind, pubs: &Pubs, f: &J) -> Option<String> {
    let one = Nat::one();
    let test = |ty: Ty, v: &J| match ty {
        Res(m) => num(v).gcd(&modulus(pubs, m)) == one,
        Ct(m) => ct_num(v).gcd(&modulus(pubs, m)) == one,
        _ => true,
    };
    for (k, p, ty) in pub_fields(kind) {
        // dec only hashes the setup
        if kind == Kind::Dec && k == "setup" {
            continue;
        }
        if !test(ty, pubs[k].pointer(p).unwrap()) {
            return Some(format!("{}{}", k, p));
        }
    }
    for (p, ty) in fields(kind) {
        for q in expand(f, p) {
            if !test(ty, f.pointer(&q).unwrap()) {
                return Some(q);
            }
        }
    }
    None
}

/// Why the proof must not be accepted (None: it may).
pub fn defect<S: SchemeParams>(kind: Kind, w: &World<S>, pubs: &Pubs, f: &J) -> Option<String> {
    if !shape_ok::<S>(kind, f) {
        return Some("not of the prescribed shape".into());
    }
    if let Some(x) = non_unit(kind, pubs, f) {
        return Some(format!("{} is not a unit", x));
    }
    match no_panic(|| equations::<S>(kind, &w.curve, pubs, f)) {
        Ok(None) => None,
        Ok(Some(x)) => Some(format!("equation or range {} does not hold", x)),
        Err(_) => None,
    }
}

