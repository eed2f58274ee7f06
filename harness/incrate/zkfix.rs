// Zero-knowledge proofs as data: statements, witnesses and proofs are JSON objects of the library's own wire forms,
// so that any part can be replaced, and proving/verifying always goes through the real code.
use std::collections::BTreeMap;
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::util::*;
use crate::curve::{Point, Scalar};
use crate::paillier::*;
use crate::params::SchemeParams;
use crate::tools::hashing::Hashable;
use crate::tools::Secret;
use crate::uint::*;
use crate::zk::*;
use crypto_bigint::Bounded;
use serde::Serialize;

pub type J = serde_json::Value;
pub type Pubs = BTreeMap<&'static str, J>;
pub type Pp<S> = <S as SchemeParams>::Paillier;
pub type Ui<S> = <Pp<S> as PaillierParams>::Uint;
pub type Wui<S> = <Pp<S> as PaillierParams>::WideUint;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind {
    Prm,
    Mod,
    Sch,
    Elog,
    Fac,
    Enc,
    Dec,
    AffG,
    AffStar,
}
pub const KINDS: [Kind; 9] =
    [Kind::Prm, Kind::Mod, Kind::Sch, Kind::Elog, Kind::Fac, Kind::Enc, Kind::Dec, Kind::AffG, Kind::AffStar];
impl Kind {
    pub fn name(self) -> &'static str {
        match self {
            Kind::Prm => "prm",
            Kind::Mod => "mod",
            Kind::Sch => "sch",
            Kind::Elog => "elog",
            Kind::Fac => "fac",
            Kind::Enc => "enc-elg",
            Kind::Dec => "dec",
            Kind::AffG => "aff-g",
            Kind::AffStar => "aff-g*",
        }
    }
}

/// A context value.
#[derive(Clone, Debug, PartialEq)]
pub enum Aux {
    /// (session identifier, party), as the protocols use it
    Sess(Vec<u8>, u32),
    Two(Vec<u8>, Vec<u8>),
    Three(Vec<u8>, Vec<u8>, u8),
    One(Vec<u8>),
    Num(u64),
    Unit,
    Nested(Vec<Vec<u8>>),
    Opt(Option<u32>),
}
impl Serialize for Aux {
    fn serialize<Z: serde::Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> {
        match self {
            Aux::Sess(a, b) => (a, b).serialize(s),
            Aux::Two(a, b) => (a, b).serialize(s),
            Aux::Three(a, b, c) => (a, b, c).serialize(s),
            Aux::One(a) => a.serialize(s),
            Aux::Num(a) => a.serialize(s),
            Aux::Unit => ().serialize(s),
            Aux::Nested(a) => a.serialize(s),
            Aux::Opt(a) => a.serialize(s),
        }
    }
}
impl Aux {
    pub fn random(rng: &mut Rng) -> Aux {
        let bytes = |rng: &mut Rng| {
            let mut v = vec![0; (rng.next_u32() % 40) as usize];
            rng.fill_bytes(&mut v);
            v
        };
        match rng.next_u32() % 10 {
            0 => Aux::Unit,
            1 => Aux::Num(rng.next_u64()),
            2 => Aux::Two(bytes(rng), bytes(rng)),
            3 => Aux::One(bytes(rng)),
            4 => Aux::Nested((0..rng.next_u32() % 4).map(|_| bytes(rng)).collect()),
            5 => Aux::Opt(if rng.next_u32() & 1 == 0 { None } else { Some(rng.next_u32()) }),
            _ => Aux::sess(rng),
        }
    }
    pub fn sess(rng: &mut Rng) -> Aux {
        let mut v = vec![0; 32];
        rng.fill_bytes(&mut v);
        Aux::Sess(v, rng.next_u32() % 8)
    }
}

/// Paillier public key with (some) secret knowledge.
pub struct PKey<S: SchemeParams> {
    pub p: Nat,
    pub q: Nat,
    pub n: Nat,
    pub phi: Nat,
    pub sk: Option<SecretKeyPaillier<Pp<S>>>,
}
impl<S: SchemeParams> PKey<S> {
    pub fn random(rng: &mut Rng) -> Self {
        loop {
            let wire = SecretKeyPaillierWire::<Pp<S>>::random(rng);
            let (p, q) = primes_of(&wire);
            if p != q {
                let mut k = Self::of(p, q);
                k.sk = Some(wire.into_precomputed());
                return k;
            }
        }
    }
    pub fn of(p: Nat, q: Nat) -> Self {
        let one = Nat::one();
        PKey { n: p.mul(&q), phi: p.sub(&one).mul(&q.sub(&one)), p, q, sk: None }
    }
    /// A (small) modulus without the secret-key machinery.
    pub fn small(rng: &mut Rng, bits: u32) -> Self {
        let p = rand_prime(rng, bits);
        loop {
            let q = rand_prime(rng, bits);
            let k = Self::of(p.clone(), q);
            if k.p != k.q && k.n.gcd(&k.phi) == Nat::one() {
                return k;
            }
        }
    }
    pub fn wire(&self) -> J {
        pk_json::<S>(&self.n)
    }
    pub fn pk(&self) -> PublicKeyPaillier<Pp<S>> {
        pk_of::<S>(&self.wire()).unwrap()
    }
    /// Decrypts a unit of Z_{N^2}: (m, rho) with v = (1+N)^m rho^N.
    pub fn open(&self, v: &Nat) -> (Nat, Nat) {
        let n2 = self.n.mul(&self.n);
        let t = v.powmod(&self.phi, &n2).sub(&Nat::one()).divrem(&self.n).0;
        let m = t.mul(&self.phi.invmod(&self.n).unwrap()).rem(&self.n);
        let rho = v.rem(&self.n).powmod(&self.n.invmod(&self.phi).unwrap(), &self.n);
        (m, rho)
    }
}
pub fn rand_prime(rng: &mut Rng, bits: u32) -> Nat {
    loop {
        let mut v = Nat::random_bits(rng, bits - 2).add(&Nat::from(3).shl(bits - 2));
        if !v.is_odd() {
            v = v.add(&Nat::one());
        }
        if v.is_prime() {
            return v;
        }
    }
}
pub fn pk_json<S: SchemeParams>(n: &Nat) -> J {
    serde_json::json!({"modulus": hex0x(&n.to_be_padded(<Ui<S> as Bounded>::BYTES))})
}
pub fn pk_of<S: SchemeParams>(j: &J) -> Result<PublicKeyPaillier<Pp<S>>, String> {
    Ok(from_json::<PublicKeyPaillierWire<Pp<S>>>(j)?.into_precomputed())
}
pub fn ct_json<S: SchemeParams>(v: &Nat) -> J {
    serde_json::json!({"ciphertext": hex0x(&v.to_be_padded(<Wui<S> as Bounded>::BYTES)), "phantom": null})
}
pub fn ct_num(j: &J) -> Nat {
    Nat::from_be(&unhex(j["ciphertext"].as_str().unwrap()))
}
pub fn num(j: &J) -> Nat {
    Nat::from_be(&unhex(j.as_str().unwrap()))
}
pub fn uint_json<S: SchemeParams>(v: &Nat) -> J {
    serde_json::json!(hex0x(&v.to_be_padded(<Ui<S> as Bounded>::BYTES)))
}
/// A JSON PublicSigned with the smallest bound, at least `min_bound`.
pub fn signed_json(v: &Int, min_bound: u32) -> J {
    let bound = v.mag.bits().max(min_bound);
    let bytes = (bound as usize).div_ceil(8);
    serde_json::json!({"bound": bound, "is_negative": v.neg, "abs_bytes": hex0x(&v.mag.to_be_padded(bytes))})
}
pub fn signed_of(j: &J) -> Int {
    Int::new(j["is_negative"].as_bool().unwrap(), Nat::from_be(&unhex(j["abs_bytes"].as_str().unwrap())))
}
pub fn sc_json<S: SchemeParams>(c: &CurveRef, v: &Nat) -> J {
    to_json(&mk_sc::<S>(c, v))
}
pub fn pt<S: SchemeParams>(j: &J) -> Point<S> {
    from_json(j).unwrap()
}
/// The bits of a serialized bit vector.
pub fn bits_of(j: &J) -> Vec<bool> {
    let bv: crate::tools::bitvec::BitVec = from_json(j).unwrap();
    bv.bits().to_vec()
}

/// Ring-Pedersen setup with known structure.
#[derive(Clone)]
pub struct Setup {
    pub p: Nat,
    pub q: Nat,
    pub n: Nat,
    pub phi: Nat,
    pub t: Nat,
    pub s: Nat,
    pub lambda: Nat,
}
impl Setup {
    pub fn new(rng: &mut Rng, p: Nat, q: Nat) -> Self {
        let n = p.mul(&q);
        let r = loop {
            let r = Nat::random_below(rng, &n);
            if r.gcd(&n) == Nat::one() {
                break r;
            }
        };
        let t = r.mul(&r).rem(&n);
        let one = Nat::one();
        let phi = p.sub(&one).mul(&q.sub(&one));
        let lambda = Nat::random_below(rng, &phi);
        let s = t.powmod(&lambda, &n);
        Setup { p, q, n, phi, t, s, lambda }
    }
    pub fn random(rng: &mut Rng, prime_bits: u32) -> Self {
        let (p, q) = (rand_prime(rng, prime_bits), rand_prime(rng, prime_bits));
        if p == q {
            return Self::random(rng, prime_bits);
        }
        Self::new(rng, p, q)
    }
    pub fn json<S: SchemeParams>(&self) -> J {
        rp_json::<S>(&self.n, &self.t, &self.s)
    }
}
pub fn rp_json<S: SchemeParams>(n: &Nat, t: &Nat, s: &Nat) -> J {
    serde_json::json!({"modulus": uint_json::<S>(n), "base_randomizer": uint_json::<S>(t), "base_value": uint_json::<S>(s)})
}
pub fn rp_of<S: SchemeParams>(j: &J) -> Result<RPParams<Pp<S>>, String> {
    Ok(from_json::<RPParamsWire<Pp<S>>>(j)?.to_precomputed())
}

pub struct World<S: SchemeParams> {
    pub curve: CurveRef,
    pub k0: PKey<S>,
    pub k1: PKey<S>,
    pub setup: Setup,
    pub rp: Option<(RPSecret<Pp<S>>, J)>,
}

pub fn curve_of<S: SchemeParams>() -> CurveRef {
    if Scalar::<S>::repr_len() == 32 {
        CurveRef::secp256k1()
    } else {
        CurveRef::tiny32()
    }
}

impl<S: SchemeParams> World<S> {
    /// Keys and setup of the configured sizes. `rp`: also a generated ring-Pedersen secret (slow for big parameters).
    pub fn new(rng: &mut Rng, rp: bool) -> Self {
        let bits = Pp::<S>::PRIME_BITS;
        let k2 = PKey::<S>::random(rng);
        World {
            curve: curve_of::<S>(),
            k0: PKey::random(rng),
            k1: PKey::random(rng),
            setup: Setup::new(rng, k2.p, k2.q),
            rp: if rp {
                let s = RPSecret::random(rng);
                let p = RPParams::random_with_secret(rng, &s).to_wire();
                Some((s, to_json(&p)))
            } else {
                None
            },
        }
    }
    /// Moduli of the given sizes (bits of the primes).
    pub fn small(rng: &mut Rng, b0: u32, b1: u32, bs: u32) -> Self {
        World {
            curve: curve_of::<S>(),
            k0: PKey::small(rng, b0),
            k1: PKey::small(rng, b1),
            setup: Setup::random(rng, bs),
            rp: None,
        }
    }
}

/// A statement with its witness.
#[derive(Clone)]
pub struct Case<'a, S: SchemeParams> {
    pub w: &'a World<S>,
    pub kind: Kind,
    pub x: Int,
    pub y: Int,
    pub rho: Option<Randomizer<Pp<S>>>,
    pub rho2: Option<Randomizer<Pp<S>>>,
    pub s1: Nat,
    pub s2: Nat,
    pub s3: Nat,
    pub sch: Option<SchSecret<S>>,
    pub pubs: Pubs,
}

pub fn unit_randomizer<S: SchemeParams>(rng: &mut Rng, k: &PKey<S>) -> Randomizer<Pp<S>> {
    Randomizer::random(rng, &k.pk())
}

/// An integer in the paper's range ±2^exp: one of the extremes or random.
pub fn in_range(rng: &mut Rng, exp: u32, kind: u32) -> Int {
    match kind % 9 {
        0 => Int::zero(),
        1 => Int::small(1),
        2 => Int::small(-1),
        3 => Int::from(Nat::pow2(exp - 1)),
        4 => Int::new(true, Nat::pow2(exp - 1).sub(&Nat::one())),
        5 => Int::from(Nat::pow2(exp - 1).sub(&Nat::one())),
        _ => {
            let m = Nat::random_bits(rng, exp - 1);
            Int::new(rng.next_u32() & 1 == 1, m)
        }
    }
}
pub fn y_exp<S: SchemeParams>(kind: Kind, parties: usize) -> u32 {
    match kind {
        Kind::Dec => {
            let mut c = 0;
            while (1usize << c) < parties {
                c += 1;
            }
            S::LP_BOUND + S::EPS_BOUND + 1 + c
        }
        _ => S::LP_BOUND,
    }
}
fn scalar_nat<S: SchemeParams>(c: &CurveRef, rng: &mut Rng, kind: u32) -> Nat {
    match kind % 8 {
        0 => Nat::zero(),
        1 => Nat::one(),
        2 => c.n.sub(&Nat::one()),
        3 => c.n.shr(1),
        _ => Nat::random_below(rng, &c.n),
    }
}

impl<'a, S: SchemeParams> Case<'a, S> {
    /// `xk`, `yk`: which witness extremes; `sk`: which scalar extremes.
    pub fn new(w: &'a World<S>, kind: Kind, rng: &mut Rng, xk: u32, yk: u32, sk: u32, parties: usize) -> Self {
        let x = in_range(rng, S::L_BOUND, xk);
        let y = in_range(rng, y_exp::<S>(kind, parties), yk);
        Self::with(w, kind, rng, x, y, sk, parties)
    }
    pub fn random(w: &'a World<S>, kind: Kind, rng: &mut Rng) -> Self {
        Self::new(w, kind, rng, 8, 8, 7, 3)
    }
    pub fn with(w: &'a World<S>, kind: Kind, rng: &mut Rng, x: Int, y: Int, sk: u32, parties: usize) -> Self {
        let c = &w.curve;
        let mut s = Case {
            w,
            kind,
            x,
            y,
            rho: None,
            rho2: None,
            s1: scalar_nat::<S>(c, rng, sk % 8),
            s2: scalar_nat::<S>(c, rng, sk / 8),
            s3: scalar_nat::<S>(c, rng, 7),
            sch: None,
            pubs: Pubs::new(),
        };
        s.build(rng, parties);
        s
    }
    pub fn xs(&self) -> SecretSigned<Ui<S>> {
        unwatched(|| mk_secret(&self.x, self.x.mag.bits().max(S::L_BOUND).min(<Ui<S> as Bounded>::BITS - 1)))
    }
    pub fn ys(&self) -> SecretSigned<Ui<S>> {
        unwatched(|| mk_secret(&self.y, self.y.mag.bits().max(S::LP_BOUND).min(<Ui<S> as Bounded>::BITS - 1)))
    }
    fn sec(&self, n: &Nat) -> Secret<Scalar<S>> {
        let v = unwatched(|| mk_sc::<S>(&self.w.curve, n));
        Secret::init_with(|| v)
    }
    /// v·G
    pub fn g(&self, v: &Int) -> Point<S> {
        mk_sc::<S>(&self.w.curve, &v.modulo(&self.w.curve.n)).mul_by_generator()
    }
    pub fn gn(&self, v: &Nat) -> Point<S> {
        self.g(&Int::from(v.clone()))
    }
    fn build(&mut self, rng: &mut Rng, parties: usize) {
        let w = self.w;
        let c = &w.curve;
        let mut p = Pubs::new();
        let (pk0, pk1) = (w.k0.pk(), w.k1.pk());
        let rand_ct = |rng: &mut Rng| {
            let m = mk_secret::<Ui<S>>(&Int::from(Nat::random_bits(rng, w.k0.n.bits() - 1)), <Ui<S> as Bounded>::BITS - 1);
            let r = Randomizer::random(rng, &pk0);
            Ciphertext::<Pp<S>>::new_with_randomizer(&pk0, &m, &r)
        };
        match self.kind {
            Kind::Prm => {
                p.insert("setup", w.rp.as_ref().expect("rp").1.clone());
            }
            Kind::Mod => {
                p.insert("pk0", w.k0.wire());
            }
            Kind::Sch => {
                let s = SchSecret::<S>::random(rng);
                p.insert("commitment", to_json(&SchCommitment::new(&s)));
                p.insert("cap_x", to_json(&self.gn(&self.s1)));
                self.sch = Some(s);
            }
            Kind::Elog => {
                // s1 = lambda, s2 = y
                let xx = scalar_nat::<S>(c, rng, 7);
                let h = self.gn(&self.s3);
                let cx = self.gn(&xx);
                p.insert("l", to_json(&self.gn(&self.s1)));
                p.insert("m", to_json(&(self.gn(&self.s2) + cx * mk_sc::<S>(c, &self.s1))));
                p.insert("x", to_json(&cx));
                p.insert("y", to_json(&(h * mk_sc::<S>(c, &self.s2))));
                p.insert("h", to_json(&h));
            }
            Kind::Fac => {
                p.insert("pk0", w.k0.wire());
                p.insert("setup", w.setup.json::<S>());
            }
            Kind::Enc => {
                // s1 = a, s2 = b
                let rho = Randomizer::random(rng, &pk0);
                let ct = Ciphertext::new_with_randomizer(&pk0, &self.xs(), &rho);
                let ab = Int::from(self.s1.mul(&self.s2));
                p.insert("pk0", w.k0.wire());
                p.insert("c", to_json(&ct.to_wire()));
                p.insert("a", to_json(&self.gn(&self.s1)));
                p.insert("b", to_json(&self.gn(&self.s2)));
                p.insert("x", to_json(&self.g(&ab.add(&self.x))));
                p.insert("setup", w.setup.json::<S>());
                self.rho = Some(rho);
            }
            Kind::Dec => {
                let rho = Randomizer::random(rng, &pk0);
                let k = rand_ct(rng);
                let mx = -self.xs();
                let d = &k * &mx + Ciphertext::new_with_randomizer(&pk0, &self.ys(), &rho);
                let g = self.gn(&self.s3);
                p.insert("pk0", w.k0.wire());
                p.insert("k", to_json(&k.to_wire()));
                p.insert("x", to_json(&self.g(&self.x)));
                p.insert("d", to_json(&d.to_wire()));
                p.insert("s", to_json(&(g * mk_sc::<S>(c, &self.y.modulo(&c.n)))));
                p.insert("g", to_json(&g));
                p.insert("parties", serde_json::json!(parties));
                p.insert("setup", w.setup.json::<S>());
                self.rho = Some(rho);
            }
            Kind::AffG | Kind::AffStar => {
                let rho = Randomizer::random(rng, &pk0);
                let rho2 = Randomizer::random(rng, &pk1);
                let ct = rand_ct(rng);
                let my = -self.ys();
                let d = &ct * &self.xs() + Ciphertext::new_with_randomizer(&pk0, &my, &rho);
                let y = Ciphertext::new_with_randomizer(&pk1, &self.ys(), &rho2);
                p.insert("pk0", w.k0.wire());
                p.insert("pk1", w.k1.wire());
                p.insert("c", to_json(&ct.to_wire()));
                p.insert("d", to_json(&d.to_wire()));
                p.insert("y", to_json(&y.to_wire()));
                p.insert("x", to_json(&self.g(&self.x)));
                if self.kind == Kind::AffG {
                    p.insert("setup", w.setup.json::<S>());
                }
                self.rho = Some(rho);
                self.rho2 = Some(rho2);
            }
        }
        self.pubs = p;
    }
    /// Runs the library's prover for the statement `pubs` (which may differ from `self.pubs`).
    /// Err: the prover refused (panicked).
    pub fn prove_as(&self, rng: &mut Rng, pubs: &Pubs, aux: &impl Hashable) -> Result<J, String> {
        let w = self.w;
        no_panic(|| match self.kind {
            Kind::Prm => {
                let setup = rp_of::<S>(&pubs["setup"]).unwrap();
                to_json(&PrmProof::<S>::new(rng, &w.rp.as_ref().unwrap().0, &setup, aux))
            }
            Kind::Mod => to_json(&ModProof::<S>::new(rng, w.k0.sk.as_ref().unwrap(), aux)),
            Kind::Sch => {
                let x = self.sec(&self.s1);
                let com = from_json(&pubs["commitment"]).unwrap();
                to_json(&SchProof::<S>::new(self.sch.as_ref().unwrap(), &x, &com, &pt(&pubs["cap_x"]), aux))
            }
            Kind::Elog => {
                let (l, m, x, y, h) = elog_pub::<S>(pubs).unwrap();
                let (sy, sl) = (self.sec(&self.s2), self.sec(&self.s1));
                to_json(&ElogProof::<S>::new(
                    rng,
                    ElogSecretInputs { y: &sy, lambda: &sl },
                    ElogPublicInputs { cap_l: &l, cap_m: &m, cap_x: &x, cap_y: &y, h: &h },
                    aux,
                ))
            }
            Kind::Fac => {
                let setup = rp_of::<S>(&pubs["setup"]).unwrap();
                to_json(&FacProof::<S>::new(rng, w.k0.sk.as_ref().unwrap(), &setup, aux))
            }
            Kind::Enc => {
                let setup = rp_of::<S>(&pubs["setup"]).unwrap();
                let pk0 = pk_of::<S>(&pubs["pk0"]).unwrap();
                let ct = ct_of::<S>(&pubs["c"], &pk0).unwrap();
                let b = self.sec(&self.s2);
                to_json(&EncElgProof::<S>::new(
                    rng,
                    EncElgSecretInputs { x: &self.xs(), rho: self.rho.as_ref().unwrap(), b: &b },
                    EncElgPublicInputs {
                        pk0: &pk0,
                        cap_c: &ct,
                        cap_a: &pt(&pubs["a"]),
                        cap_b: &pt(&pubs["b"]),
                        cap_x: &pt(&pubs["x"]),
                    },
                    &setup,
                    aux,
                ))
            }
            Kind::Dec => {
                let setup = rp_of::<S>(&pubs["setup"]).unwrap();
                let pk0 = pk_of::<S>(&pubs["pk0"]).unwrap();
                let k = ct_of::<S>(&pubs["k"], &pk0).unwrap();
                let d = ct_of::<S>(&pubs["d"], &pk0).unwrap();
                to_json(&DecProof::<S>::new(
                    rng,
                    DecSecretInputs { x: &self.xs(), y: &self.ys(), rho: self.rho.as_ref().unwrap() },
                    DecPublicInputs {
                        pk0: &pk0,
                        cap_k: &k,
                        cap_x: &pt(&pubs["x"]),
                        cap_d: &d,
                        cap_s: &pt(&pubs["s"]),
                        cap_g: &pt(&pubs["g"]),
                        num_parties: pubs["parties"].as_u64().unwrap() as usize,
                    },
                    &setup,
                    aux,
                ))
            }
            Kind::AffG => {
                let setup = rp_of::<S>(&pubs["setup"]).unwrap();
                let pk0 = pk_of::<S>(&pubs["pk0"]).unwrap();
                let pk1 = pk_of::<S>(&pubs["pk1"]).unwrap();
                to_json(&AffGProof::<S>::new(
                    rng,
                    AffGSecretInputs {
                        x: &self.xs(),
                        y: &self.ys(),
                        rho: self.rho.as_ref().unwrap(),
                        rho_y: self.rho2.as_ref().unwrap(),
                    },
                    AffGPublicInputs {
                        pk0: &pk0,
                        pk1: &pk1,
                        cap_c: &ct_of::<S>(&pubs["c"], &pk0).unwrap(),
                        cap_d: &ct_of::<S>(&pubs["d"], &pk0).unwrap(),
                        cap_y: &ct_of::<S>(&pubs["y"], &pk1).unwrap(),
                        cap_x: &pt(&pubs["x"]),
                    },
                    &setup,
                    aux,
                ))
            }
            Kind::AffStar => {
                let pk0 = pk_of::<S>(&pubs["pk0"]).unwrap();
                let pk1 = pk_of::<S>(&pubs["pk1"]).unwrap();
                to_json(&AffGStarProof::<S>::new(
                    rng,
                    AffGStarSecretInputs {
                        x: &self.xs(),
                        y: &self.ys(),
                        rho: self.rho.as_ref().unwrap(),
                        mu: self.rho2.as_ref().unwrap(),
                    },
                    AffGStarPublicInputs {
                        pk0: &pk0,
                        pk1: &pk1,
                        cap_c: &ct_of::<S>(&pubs["c"], &pk0).unwrap(),
                        cap_d: &ct_of::<S>(&pubs["d"], &pk0).unwrap(),
                        cap_y: &ct_of::<S>(&pubs["y"], &pk1).unwrap(),
                        cap_x: &pt(&pubs["x"]),
                    },
                    aux,
                ))
            }
        })
    }
    pub fn prove(&self, rng: &mut Rng, aux: &impl Hashable) -> Result<J, String> {
        self.prove_as(rng, &self.pubs, aux)
    }
    pub fn describe(&self) -> String {
        format!("{} x={:?} y={:?} s1={:?} s2={:?} publics={}", self.kind.name(), self.x, self.y, self.s1, self.s2, short(&serde_json::to_string(&self.pubs).unwrap(), 2500))
    }
}

pub fn ct_of<S: SchemeParams>(j: &J, pk: &PublicKeyPaillier<Pp<S>>) -> Result<Ciphertext<Pp<S>>, String> {
    Ok(from_json::<CiphertextWire<Pp<S>>>(j)?.to_precomputed(pk))
}
fn elog_pub<S: SchemeParams>(p: &Pubs) -> Result<(Point<S>, Point<S>, Point<S>, Point<S>, Point<S>), String> {
    Ok((from_json(&p["l"])?, from_json(&p["m"])?, from_json(&p["x"])?, from_json(&p["y"])?, from_json(&p["h"])?))
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    Accept,
    Reject,
    /// Some part does not decode.
    NoDecode(String),
    Panic(String),
}

/// Runs the library's verifier.
pub fn verify<S: SchemeParams>(kind: Kind, p: &Pubs, proof: &J, aux: &impl Hashable) -> Verdict {
    match no_panic(|| verify_inner::<S>(kind, p, proof, aux)) {
        Ok(Ok(true)) => Verdict::Accept,
        Ok(Ok(false)) => Verdict::Reject,
        Ok(Err(e)) => Verdict::NoDecode(e),
        Err(e) => Verdict::Panic(e),
    }
}
fn verify_inner<S: SchemeParams>(kind: Kind, p: &Pubs, proof: &J, aux: &impl Hashable) -> Result<bool, String> {
    Ok(match kind {
        Kind::Prm => from_json::<PrmProof<S>>(proof)?.verify(&rp_of::<S>(&p["setup"])?, aux),
        Kind::Mod => from_json::<ModProof<S>>(proof)?.verify(&pk_of::<S>(&p["pk0"])?, aux),
        Kind::Sch => {
            from_json::<SchProof<S>>(proof)?.verify(&from_json(&p["commitment"])?, &from_json(&p["cap_x"])?, aux)
        }
        Kind::Elog => {
            let (l, m, x, y, h) = elog_pub::<S>(p)?;
            from_json::<ElogProof<S>>(proof)?
                .verify(ElogPublicInputs { cap_l: &l, cap_m: &m, cap_x: &x, cap_y: &y, h: &h }, aux)
        }
        Kind::Fac => from_json::<FacProof<S>>(proof)?.verify(&pk_of::<S>(&p["pk0"])?, &rp_of::<S>(&p["setup"])?, aux),
        Kind::Enc => {
            let pk0 = pk_of::<S>(&p["pk0"])?;
            from_json::<EncElgProof<S>>(proof)?.verify(
                EncElgPublicInputs {
                    pk0: &pk0,
                    cap_c: &ct_of::<S>(&p["c"], &pk0)?,
                    cap_a: &from_json(&p["a"])?,
                    cap_b: &from_json(&p["b"])?,
                    cap_x: &from_json(&p["x"])?,
                },
                &rp_of::<S>(&p["setup"])?,
                aux,
            )
        }
        Kind::Dec => {
            let pk0 = pk_of::<S>(&p["pk0"])?;
            from_json::<DecProof<S>>(proof)?.verify(
                DecPublicInputs {
                    pk0: &pk0,
                    cap_k: &ct_of::<S>(&p["k"], &pk0)?,
                    cap_x: &from_json(&p["x"])?,
                    cap_d: &ct_of::<S>(&p["d"], &pk0)?,
                    cap_s: &from_json(&p["s"])?,
                    cap_g: &from_json(&p["g"])?,
                    num_parties: p["parties"].as_u64().unwrap() as usize,
                },
                &rp_of::<S>(&p["setup"])?,
                aux,
            )
        }
        Kind::AffG => {
            let pk0 = pk_of::<S>(&p["pk0"])?;
            let pk1 = pk_of::<S>(&p["pk1"])?;
            from_json::<AffGProof<S>>(proof)?.verify(
                AffGPublicInputs {
                    pk0: &pk0,
                    pk1: &pk1,
                    cap_c: &ct_of::<S>(&p["c"], &pk0)?,
                    cap_d: &ct_of::<S>(&p["d"], &pk0)?,
                    cap_y: &ct_of::<S>(&p["y"], &pk1)?,
                    cap_x: &from_json(&p["x"])?,
                },
                &rp_of::<S>(&p["setup"])?,
                aux,
            )
        }
        Kind::AffStar => {
            let pk0 = pk_of::<S>(&p["pk0"])?;
            let pk1 = pk_of::<S>(&p["pk1"])?;
            from_json::<AffGStarProof<S>>(proof)?.verify(
                AffGStarPublicInputs {
                    pk0: &pk0,
                    pk1: &pk1,
                    cap_c: &ct_of::<S>(&p["c"], &pk0)?,
                    cap_d: &ct_of::<S>(&p["d"], &pk0)?,
                    cap_y: &ct_of::<S>(&p["y"], &pk1)?,
                    cap_x: &from_json(&p["x"])?,
                },
                aux,
            )
        }
    })
}

/// The proof after a trip through the binary format.
pub fn cbor_trip<S: SchemeParams>(kind: Kind, proof: &J) -> Result<J, String> {
    fn trip<T: Serialize + serde::de::DeserializeOwned>(j: &J) -> Result<J, String> {
        let v: T = from_json(j)?;
        let b = to_cbor(&v);
        let back: T = from_cbor(&b)?;
        Ok(to_json(&back))
    }
    match kind {
        Kind::Prm => trip::<PrmProof<S>>(proof),
        Kind::Mod => trip::<ModProof<S>>(proof),
        Kind::Sch => trip::<SchProof<S>>(proof),
        Kind::Elog => trip::<ElogProof<S>>(proof),
        Kind::Fac => trip::<FacProof<S>>(proof),
        Kind::Enc => trip::<EncElgProof<S>>(proof),
        Kind::Dec => trip::<DecProof<S>>(proof),
        Kind::AffG => trip::<AffGProof<S>>(proof),
        Kind::AffStar => trip::<AffGStarProof<S>>(proof),
    }
}
