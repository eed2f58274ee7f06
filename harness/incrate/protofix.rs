// Fixtures for the protocol checks: identifiers, sessions of each protocol, and results read through their serialized form.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::session::*;
use super::util::*;
use super::zkfix::*;
use crate::curve::{Point, Scalar};
use crate::params::SchemeParams;
use crate::{
    AuxGen, AuxGenProtocol, AuxInfo, InteractiveSigning, InteractiveSigningProtocol, KeyInit, KeyInitProtocol, KeyRefresh, KeyRefreshProtocol,
    KeyResharing, KeyResharingProtocol, KeyShare, KeyShareChange, NewHolder, OldHolder, PrehashedMessage, ThresholdKeyShare,
};
use manul::protocol::PartyId;
use rand_core::RngCore;
use serde_json::Value as J;

pub trait Tid: PartyId + std::hash::Hash {
    fn some(rng: &mut Rng) -> Self;
    fn many(rng: &mut Rng, n: usize) -> BTreeSet<Self> {
        let mut s = BTreeSet::new();
        while s.len() < n {
            s.insert(Self::some(rng));
        }
        s
    }
}
impl Tid for u32 {
    fn some(rng: &mut Rng) -> Self {
        match rng.next_u32() % 4 {
            0 => rng.next_u32() % 8,
            1 => u32::MAX - rng.next_u32() % 8,
            _ => rng.next_u32(),
        }
    }
}
impl Tid for String {
    fn some(rng: &mut Rng) -> Self {
        let n = rng.next_u32() % 12;
        (0..n).map(|_| ['a', 'b', 'z', '\u{0}', 'é', '0'][(rng.next_u32() % 6) as usize]).collect()
    }
}

pub fn scal<S: SchemeParams>(j: &J) -> Nat {
    sc::<S>(&from_json::<Scalar<S>>(j).expect("a scalar"))
}
pub fn point<S: SchemeParams>(j: &J) -> Aff {
    aff::<S>(&from_json::<Point<S>>(j).expect("a point"))
}
pub fn map_of<Id: Tid, T>(j: &J, f: impl Fn(&J) -> T) -> BTreeMap<Id, T> {
    j.as_array().unwrap().iter().map(|p| (from_json::<Id>(&p[0]).unwrap(), f(&p[1]))).collect()
}
pub fn vk_aff<S: SchemeParams>(vk: &ecdsa::VerifyingKey<S::Curve>) -> Aff {
    aff::<S>(&Point::from_verifying_key(vk))
}
pub fn sk_nat<S: SchemeParams>(sk: &ecdsa::SigningKey<S::Curve>) -> Nat {
    sc::<S>(&Scalar::<S>::from(sk.as_nonzero_scalar()))
}
pub fn sk_of<S: SchemeParams>(c: &CurveRef, v: &Nat) -> ecdsa::SigningKey<S::Curve> {
    let n = c.len;
    let b = v.to_be_padded(n);
    ecdsa::SigningKey::from_bytes(elliptic_curve::FieldBytes::<S::Curve>::from_slice(&b)).expect("a non-zero scalar")
}

#[derive(Clone, Debug, PartialEq)]
pub struct KsView<Id: Tid> {
    pub owner: Id,
    pub secret: Nat,
    pub public: BTreeMap<Id, Aff>,
}
pub fn ks_view<S: SchemeParams, Id: Tid>(k: &KeyShare<S, Id>) -> KsView<Id> {
    let j = to_json(k);
    KsView { owner: from_json(&j["owner"]).unwrap(), secret: scal::<S>(&j["secret"]), public: map_of(&j["public"], |p| point::<S>(p)) }
}
#[derive(Clone, Debug, PartialEq)]
pub struct TksView<Id: Tid> {
    pub owner: Id,
    pub threshold: u64,
    pub secret: Nat,
    pub ids: BTreeMap<Id, Nat>,
    pub public: BTreeMap<Id, Aff>,
}
pub fn tks_view<S: SchemeParams, Id: Tid>(k: &ThresholdKeyShare<S, Id>) -> TksView<Id> {
    let j = to_json(k);
    TksView {
        owner: from_json(&j["owner"]).unwrap(),
        threshold: j["threshold"].as_u64().unwrap(),
        secret: scal::<S>(&j["secret_share"]),
        ids: map_of(&j["share_ids"], |p| scal::<S>(p)),
        public: map_of(&j["public_shares"], |p| point::<S>(p)),
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct ChangeView<Id: Tid> {
    pub owner: Id,
    pub secret: Nat,
    pub public: BTreeMap<Id, Aff>,
}
pub fn change_view<S: SchemeParams, Id: Tid>(k: &KeyShareChange<S, Id>) -> ChangeView<Id> {
    let j = to_json(k);
    ChangeView {
        owner: from_json(&j["owner"]).unwrap(),
        secret: scal::<S>(&j["secret_share_change"]),
        public: map_of(&j["public_share_changes"], |p| point::<S>(p)),
    }
}
#[derive(Clone, Debug, PartialEq)]
pub struct AuxView<Id: Tid> {
    pub owner: Id,
    pub p: Nat,
    pub q: Nat,
    pub public: BTreeMap<Id, AuxPub>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct AuxPub {
    pub n: Nat,
    pub rp_n: Nat,
    pub t: Nat,
    pub s: Nat,
}
pub fn aux_view<S: SchemeParams, Id: Tid>(k: &AuxInfo<S, Id>) -> AuxView<Id> {
    let j = to_json(k);
    let pr = &j["secret"]["paillier_sk"]["primes"];
    AuxView { owner: from_json(&j["owner"]).unwrap(), p: num(&pr["p"]), q: num(&pr["q"]), public: map_of(&j["public"], aux_pub) }
}
pub fn aux_pub(j: &J) -> AuxPub {
    let r = &j["rp_params"];
    AuxPub { n: num(&j["paillier_pk"]["modulus"]), rp_n: num(&r["modulus"]), t: num(&r["base_randomizer"]), s: num(&r["base_value"]) }
}

/// Sum of all points.
pub fn sum_pts<'a>(c: &CurveRef, i: impl IntoIterator<Item = &'a Aff>) -> Aff {
    i.into_iter().fold(None, |a, b| c.add(&a, b))
}
/// Lagrange coefficient at 0 for `x` among `xs` (modulo n).
pub fn lagrange(n: &Nat, xs: &[Nat], x: &Nat) -> Nat {
    lagrange_at(n, xs, x, &Nat::zero())
}
pub fn lagrange_at(n: &Nat, xs: &[Nat], x: &Nat, at: &Nat) -> Nat {
    let sub = |a: &Nat, b: &Nat| a.add(n).sub(b).rem(n);
    let mut r = Nat::one();
    for y in xs.iter().filter(|y| *y != x) {
        r = r.mul(&sub(at, y)).rem(n).mul(&sub(x, y).invmod(n).unwrap()).rem(n);
    }
    r
}

/// A consistent set of additive key shares: one key everywhere, shares that match and sum to it. Returns the key.
pub fn check_key_shares<S: SchemeParams, Id: Tid>(c: &CurveRef, ids: &BTreeSet<Id>, m: &BTreeMap<Id, KeyShare<S, Id>>) -> Result<(Nat, Aff), String> {
    let views: BTreeMap<Id, KsView<Id>> = m.iter().map(|(i, k)| (i.clone(), ks_view(k))).collect();
    let first = views.values().next().ok_or("no shares")?;
    let mut sum = Nat::zero();
    if m.keys().cloned().collect::<BTreeSet<_>>() != *ids {
        return Err(format!("shares for {:?} instead of {:?}", m.keys(), ids));
    }
    let key = sum_pts(c, first.public.values());
    if key.is_none() {
        return Err("the group key is the point at infinity".into());
    }
    for (id, v) in &views {
        if &v.owner != id || m[id].owner() != id {
            return Err(format!("the share of {:?} is owned by {:?}", id, v.owner));
        }
        if v.public.keys().cloned().collect::<BTreeSet<_>>() != *ids || m[id].all_parties() != *ids {
            return Err(format!("the share of {:?} lists the parties {:?}", id, v.public.keys()));
        }
        if v.public != first.public {
            return Err(format!("public shares differ between {:?} and {:?}", id, first.owner));
        }
        if c.mul(&v.secret, &c.gen()) != v.public[id] {
            return Err(format!("the public share of {:?} does not match its secret share", id));
        }
        if vk_aff::<S>(&m[id].verifying_key()) != key {
            return Err(format!("the verifying key of {:?} is not the sum of the public shares", id));
        }
        sum = sum.add(&v.secret).rem(&c.n);
    }
    if c.mul(&sum, &c.gen()) != key {
        return Err("the secret shares do not add up to the secret of the verifying key".into());
    }
    Ok((sum, key))
}

// ---------------------------------------------------------------- sessions

pub fn key_init<S: SchemeParams, Id: Tid>(run: &Run<Id, KeyInitProtocol<S, Id>>, ids: &BTreeSet<Id>) -> Outcome<Id, KeyInitProtocol<S, Id>> {
    run.go(ids.iter().map(|i| (i.clone(), KeyInit::<S, Id>::new(ids.clone()).unwrap())).collect())
}
pub fn aux_gen<S: SchemeParams, Id: Tid>(run: &Run<Id, AuxGenProtocol<S, Id>>, ids: &BTreeSet<Id>) -> Outcome<Id, AuxGenProtocol<S, Id>> {
    run.go(ids.iter().map(|i| (i.clone(), AuxGen::<S, Id>::new(ids.clone()).unwrap())).collect())
}
pub fn key_refresh<S: SchemeParams, Id: Tid>(run: &Run<Id, KeyRefreshProtocol<S, Id>>, ids: &BTreeSet<Id>) -> Outcome<Id, KeyRefreshProtocol<S, Id>> {
    run.go(ids.iter().map(|i| (i.clone(), KeyRefresh::<S, Id>::new(ids.clone()).unwrap())).collect())
}
pub type Ks<S, Id> = BTreeMap<Id, KeyShare<S, Id>>;
pub type Ax<S, Id> = BTreeMap<Id, AuxInfo<S, Id>>;
pub type Tk<S, Id> = BTreeMap<Id, ThresholdKeyShare<S, Id>>;

pub fn message<S: SchemeParams>(v: &[u8]) -> PrehashedMessage<S::Curve> {
    elliptic_curve::FieldBytes::<S::Curve>::from_slice(v).clone()
}
pub fn sign<S: SchemeParams, Id: Tid>(
    run: &Run<Id, InteractiveSigningProtocol<S, Id>>,
    msg: &[u8],
    ks: &Ks<S, Id>,
    ax: &Ax<S, Id>,
) -> Outcome<Id, InteractiveSigningProtocol<S, Id>> {
    run.go(
        ks.iter()
            .map(|(i, k)| (i.clone(), InteractiveSigning::<S, Id>::new(message::<S>(msg), k.clone(), ax[i].clone()).expect("matching parties")))
            .collect(),
    )
}
/// Resharing by `old` (the participating holders) to `new`.
pub fn reshare<S: SchemeParams, Id: Tid>(
    run: &Run<Id, KeyResharingProtocol<S, Id>>,
    old: &Tk<S, Id>,
    new: &BTreeSet<Id>,
    t: usize,
) -> Outcome<Id, KeyResharingProtocol<S, Id>> {
    let any = old.values().next().unwrap();
    let holder = NewHolder::<S, Id> {
        verifying_key: any.verifying_key().unwrap(),
        old_threshold: any.threshold(),
        old_holders: old.keys().cloned().collect(),
    };
    let all: BTreeSet<Id> = old.keys().chain(new).cloned().collect();
    run.go(
        all.into_iter()
            .map(|i| {
                let o = old.get(&i).map(|k| OldHolder { key_share: k.clone() });
                let n = new.contains(&i).then(|| holder.clone());
                (i, KeyResharing::<S, Id>::new(o, n, new.clone(), t))
            })
            .collect(),
    )
}

/// Aux data for given parties without a protocol run, from random primes of the right size.
pub fn quick_aux<S: SchemeParams, Id: Tid>(rng: &mut Rng, ids: &BTreeSet<Id>) -> Ax<S, Id> {
    let bits = <S::Paillier as crate::paillier::PaillierParams>::PRIME_BITS;
    let prime = |rng: &mut Rng| loop {
        let p = rand_prime(rng, bits);
        if p.rem(&Nat::from(4)) == Nat::from(3) {
            return p;
        }
    };
    let half = <<S::Paillier as crate::paillier::PaillierParams>::HalfUint as crypto_bigint::Bounded>::BYTES;
    let secret: Vec<(Id, Nat, Nat, Setup)> = ids
        .iter()
        .map(|i| {
            let (p, q) = (prime(rng), prime(rng));
            let (rp, rq) = (prime(rng), prime(rng));
            (i.clone(), p, q, Setup::new(rng, rp, rq))
        })
        .collect();
    let public: Vec<J> = secret
        .iter()
        .map(|(i, p, q, s)| serde_json::json!([to_json(i), {"paillier_pk": pk_json::<S>(&p.mul(q)), "rp_params": s.json::<S>()}]))
        .collect();
    secret
        .iter()
        .map(|(i, p, q, _)| {
            let j = serde_json::json!({"owner": to_json(i), "public": public,
                "secret": {"paillier_sk": {"primes": {"p": hex0x(&p.to_be_padded(half)), "q": hex0x(&q.to_be_padded(half))}}}});
            (i.clone(), from_json::<AuxInfo<S, Id>>(&j).expect("well-formed aux data"))
        })
        .collect()
}

/// All subsets of `n` of the elements.
pub fn subsets<T: Clone>(v: &[T], n: usize) -> Vec<Vec<T>> {
    if n == 0 {
        return vec![vec![]];
    }
    if v.len() < n {
        return vec![];
    }
    let mut r = subsets(&v[1..], n);
    for mut s in subsets(&v[1..], n - 1) {
        s.insert(0, v[0].clone());
        r.push(s);
    }
    r
}
pub fn pick<T: Clone + Ord>(rng: &mut Rng, s: &BTreeSet<T>, n: usize) -> BTreeSet<T> {
    let mut v: Vec<T> = s.iter().cloned().collect();
    while v.len() > n {
        let k = (rng.next_u32() as usize) % v.len();
        v.remove(k);
    }
    v.into_iter().collect()
}
pub fn order_no(k: u64) -> Order {
    match k % 5 {
        0 => Order::Fifo,
        1 => Order::Lifo,
        2 => Order::Starve((k / 5) as usize),
        _ => Order::Random,
    }
}
