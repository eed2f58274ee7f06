// The five protocols as one interface for the checks on deviating parties.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::protofix::*;
use super::session::*;
use super::util::*;
use super::zkfix::*;
use crate::dev::TestParams;
use crate::entities::Sid;
use crate::params::SchemeParams;
use crate::tools::hashing::{Chain, Hasher};
use crate::{
    AuxGenAssociatedData, AuxGenProtocol, InteractiveSigningAssociatedData, InteractiveSigningProtocol, KeyInitAssociatedData, KeyInitProtocol,
    KeyRefreshAssociatedData, KeyRefreshProtocol, KeyResharingProtocol, KeyShare, ThresholdKeyShare,
};
use manul::protocol::*;
use rand_core::RngCore;
use serde_json::{json, Value as J};

pub type T = TestParams;
pub type I = u32;
pub type Data<R> = <<<R as Rig>::P as Protocol<I>>::ProtocolError as ProtocolError<I>>::AssociatedData;
pub type Res<R> = <<R as Rig>::P as Protocol<I>>::Result;
pub type Errs<R> = <<R as Rig>::P as Protocol<I>>::ProtocolError;

/// A change one deviating party makes: (round, part, destination of a direct message, the genuine bytes) to new bytes.
pub type Edit = Vec<(u8, Part, Option<I>, Bytes)>;

pub trait Rig: Sync + Sized {
    type P: Protocol<I>;
    const NAME: &'static str;
    fn make(rng: &mut Rng, n: usize) -> Self;
    fn ids(&self) -> BTreeSet<I>;
    fn go(&self, run: &Run<I, Self::P>) -> Outcome<I, Self::P>;
    fn data(&self, who: &I) -> Data<Self>;
    /// Results of honest parties are the same and fit together.
    fn agree(&self, c: &CurveRef, honest: &BTreeMap<I, &Res<Self>>) -> Result<(), String>;
    /// The first-round message committing to these second-round ones, if there is such a commitment.
    fn recommit(&self, _shared: &[u8], _id: &I, _eb2: &J, _nb2: &J) -> Option<J> {
        None
    }
    fn wrap(v: J) -> J {
        json!({ "error": v, "phantom": null })
    }
    fn error_json(e: &Errs<Self>) -> J {
        let j = to_json(e);
        if j.get("error").is_some() {
            j["error"].clone()
        } else {
            j
        }
    }
}
/// Name of an error variant.
pub fn variant_name(j: &J) -> String {
    match j {
        J::String(s) => s.clone(),
        J::Object(o) => o.keys().next().cloned().unwrap_or_default(),
        _ => j.to_string(),
    }
}

fn sid(shared: &[u8], ids: &BTreeSet<I>) -> Sid {
    Sid::new::<T, I>(shared, ids)
}
fn hash_json<H: serde::Serialize>(h: &H) -> J {
    json!({ "cap_v": to_json(h) })
}

pub struct KeyInitRig {
    ids: BTreeSet<I>,
}
impl KeyInitRig {
    pub fn of(ids: BTreeSet<I>) -> Self {
        KeyInitRig { ids }
    }
}
impl Rig for KeyInitRig {
    type P = KeyInitProtocol<T, I>;
    const NAME: &'static str = "KeyInit";
    fn make(rng: &mut Rng, n: usize) -> Self {
        KeyInitRig { ids: I::many(rng, n) }
    }
    fn ids(&self) -> BTreeSet<I> {
        self.ids.clone()
    }
    fn go(&self, run: &Run<I, Self::P>) -> Outcome<I, Self::P> {
        key_init::<T, I>(run, &self.ids)
    }
    fn data(&self, _: &I) -> Data<Self> {
        KeyInitAssociatedData { ids: self.ids.clone() }
    }
    fn agree(&self, c: &CurveRef, honest: &BTreeMap<I, &KeyShare<T, I>>) -> Result<(), String> {
        let views: BTreeMap<I, KsView<I>> = honest.iter().map(|(i, k)| (*i, ks_view(k))).collect();
        shares_agree(c, &self.ids, views.iter().map(|(i, v)| (i, &v.owner, &v.secret, &v.public)))?;
        if let Some(v) = views.values().next() {
            if sum_pts(c, v.public.values()).is_none() {
                return Err("the group key is the point at infinity".into());
            }
        }
        Ok(())
    }
    fn recommit(&self, shared: &[u8], id: &I, eb: &J, nb: &J) -> Option<J> {
        let h = Hasher::<<T as SchemeParams>::Digest>::new_with_dst(b"KeyInit")
            .chain(&sid(shared, &self.ids))
            .chain(id)
            .chain(&from_json::<crate::curve::Point<T>>(nb.get("cap_x")?).ok()?)
            .chain(&from_json::<crate::zk::SchCommitment<T>>(nb.get("cap_a")?).ok()?)
            .chain(&from_json::<crate::tools::bitvec::BitVec>(eb.get("rho")?).ok()?)
            .chain(&from_json::<crate::tools::bitvec::BitVec>(nb.get("u")?).ok()?)
            .finalize(T::SECURITY_BITS);
        Some(hash_json(&h))
    }
}

fn shares_agree<'a>(
    c: &CurveRef,
    ids: &BTreeSet<I>,
    it: impl Iterator<Item = (&'a I, &'a I, &'a Nat, &'a BTreeMap<I, Aff>)>,
) -> Result<(), String> {
    let mut first: Option<(&I, &BTreeMap<I, Aff>)> = None;
    for (i, owner, secret, public) in it {
        if i != owner {
            return Err(format!("the share of {} is owned by {}", i, owner));
        }
        if public.keys().cloned().collect::<BTreeSet<_>>() != *ids {
            return Err(format!("the share of {} lists {:?}", i, public.keys()));
        }
        if c.mul(secret, &c.gen()) != public[i] {
            return Err(format!("the public share of {} does not match its secret share", i));
        }
        let f = *first.get_or_insert((i, public));
        if f.1 != public {
            return Err(format!("the public shares differ between {} and {}", f.0, i));
        }
    }
    Ok(())
}

pub struct AuxGenRig {
    ids: BTreeSet<I>,
}
impl AuxGenRig {
    pub fn of(ids: BTreeSet<I>) -> Self {
        AuxGenRig { ids }
    }
}
impl Rig for AuxGenRig {
    type P = AuxGenProtocol<T, I>;
    const NAME: &'static str = "AuxGen";
    fn make(rng: &mut Rng, n: usize) -> Self {
        AuxGenRig { ids: I::many(rng, n) }
    }
    fn ids(&self) -> BTreeSet<I> {
        self.ids.clone()
    }
    fn go(&self, run: &Run<I, Self::P>) -> Outcome<I, Self::P> {
        aux_gen::<T, I>(run, &self.ids)
    }
    fn data(&self, _: &I) -> Data<Self> {
        AuxGenAssociatedData { ids: self.ids.clone() }
    }
    fn agree(&self, _: &CurveRef, honest: &BTreeMap<I, &Res<Self>>) -> Result<(), String> {
        let views: BTreeMap<I, AuxView<I>> = honest.iter().map(|(i, k)| (*i, aux_view(k))).collect();
        aux_agree(&self.ids, &views)
    }
    fn recommit(&self, shared: &[u8], id: &I, eb: &J, nb: &J) -> Option<J> {
        type Pp = <T as SchemeParams>::Paillier;
        let h = Hasher::<<T as SchemeParams>::Digest>::new_with_dst(b"KeyInit")
            .chain(&sid(shared, &self.ids))
            .chain(id)
            .chain(&from_json::<crate::paillier::PublicKeyPaillierWire<Pp>>(nb.get("paillier_pk")?).ok()?)
            .chain(&from_json::<crate::paillier::RPParamsWire<Pp>>(eb.get("rp_params")?).ok()?)
            .chain(&from_json::<crate::zk::PrmProof<T>>(nb.get("psi")?).ok()?)
            .chain(&from_json::<crate::tools::bitvec::BitVec>(eb.get("rid")?).ok()?)
            .chain(&from_json::<crate::tools::bitvec::BitVec>(nb.get("u")?).ok()?)
            .finalize(T::SECURITY_BITS);
        Some(hash_json(&h))
    }
}
fn aux_agree(ids: &BTreeSet<I>, views: &BTreeMap<I, AuxView<I>>) -> Result<(), String> {
    let Some(first) = views.values().next() else { return Ok(()) };
    for (i, v) in views {
        if &v.owner != i {
            return Err(format!("the auxiliary data of {} is owned by {}", i, v.owner));
        }
        if v.public.keys().cloned().collect::<BTreeSet<_>>() != *ids {
            return Err(format!("the auxiliary data of {} lists {:?}", i, v.public.keys()));
        }
        if v.public != first.public {
            return Err(format!("the public auxiliary data of {} and {} differ", i, first.owner));
        }
        if v.public[i].n != v.p.mul(&v.q) {
            return Err(format!("the modulus of {} is not the product of its primes", i));
        }
        for (k, a) in &v.public {
            if a.n.bits() < 254 || a.rp_n.bits() < 254 {
                return Err(format!("a modulus of {} is too short", k));
            }
        }
    }
    Ok(())
}

pub struct KeyRefreshRig {
    ids: BTreeSet<I>,
}
impl KeyRefreshRig {
    pub fn of(ids: BTreeSet<I>) -> Self {
        KeyRefreshRig { ids }
    }
}
impl Rig for KeyRefreshRig {
    type P = KeyRefreshProtocol<T, I>;
    const NAME: &'static str = "KeyRefresh";
    fn make(rng: &mut Rng, n: usize) -> Self {
        KeyRefreshRig { ids: I::many(rng, n) }
    }
    fn ids(&self) -> BTreeSet<I> {
        self.ids.clone()
    }
    fn go(&self, run: &Run<I, Self::P>) -> Outcome<I, Self::P> {
        key_refresh::<T, I>(run, &self.ids)
    }
    fn data(&self, _: &I) -> Data<Self> {
        KeyRefreshAssociatedData { ids: self.ids.clone() }
    }
    fn agree(&self, c: &CurveRef, honest: &BTreeMap<I, &Res<Self>>) -> Result<(), String> {
        let ch: BTreeMap<I, ChangeView<I>> = honest.iter().map(|(i, k)| (*i, change_view(&k.0))).collect();
        shares_agree(c, &self.ids, ch.iter().map(|(i, v)| (i, &v.owner, &v.secret, &v.public)))?;
        if let Some(v) = ch.values().next() {
            if sum_pts(c, v.public.values()).is_some() {
                return Err("the share changes do not cancel out".into());
            }
        }
        let views: BTreeMap<I, AuxView<I>> = honest.iter().map(|(i, k)| (*i, aux_view(&k.1))).collect();
        aux_agree(&self.ids, &views)
    }
    fn recommit(&self, shared: &[u8], id: &I, eb: &J, nb: &J) -> Option<J> {
        type Pp = <T as SchemeParams>::Paillier;
        fn map<V: serde::de::DeserializeOwned>(j: &J) -> Option<BTreeMap<I, V>> {
            from_json::<manul::utils::SerializableMap<I, V>>(j).ok().map(|m| m.into())
        }
        let h = Hasher::<<T as SchemeParams>::Digest>::new_with_dst(b"KeyInit")
            .chain(&sid(shared, &self.ids))
            .chain(id)
            .chain(&map::<crate::curve::Point<T>>(nb.get("cap_xs")?)?)
            .chain(&map::<crate::curve::Point<T>>(eb.get("cap_ys")?)?)
            .chain(&map::<crate::zk::SchCommitment<T>>(nb.get("cap_as")?)?)
            .chain(&from_json::<crate::paillier::PublicKeyPaillierWire<Pp>>(nb.get("paillier_pk")?).ok()?)
            .chain(&from_json::<crate::paillier::RPParamsWire<Pp>>(eb.get("rp_params")?).ok()?)
            .chain(&from_json::<crate::zk::PrmProof<T>>(nb.get("psi")?).ok()?)
            .chain(&from_json::<crate::tools::bitvec::BitVec>(eb.get("rid")?).ok()?)
            .chain(&from_json::<crate::tools::bitvec::BitVec>(nb.get("u")?).ok()?)
            .finalize(T::SECURITY_BITS);
        Some(hash_json(&h))
    }
}

pub struct SigningRig {
    pub ks: Ks<T, I>,
    pub ax: Ax<T, I>,
    pub msg: Vec<u8>,
    pub key: Aff,
}
impl SigningRig {
    pub fn with(rng: &mut Rng, ids: BTreeSet<I>) -> Self {
        let c = curve_of::<T>();
        let ks: Ks<T, I> = KeyShare::<T, I>::new_centralized(rng, &ids, None);
        let ax = quick_aux::<T, I>(rng, &ids);
        let key = check_key_shares::<T, I>(&c, &ids, &ks).unwrap().1;
        let mut msg = vec![0u8; c.len];
        rng.fill_bytes(&mut msg);
        SigningRig { ks, ax, msg, key }
    }
}
impl Rig for SigningRig {
    type P = InteractiveSigningProtocol<T, I>;
    const NAME: &'static str = "InteractiveSigning";
    fn make(rng: &mut Rng, n: usize) -> Self {
        let ids = I::many(rng, n);
        Self::with(rng, ids)
    }
    fn ids(&self) -> BTreeSet<I> {
        self.ks.keys().cloned().collect()
    }
    fn go(&self, run: &Run<I, Self::P>) -> Outcome<I, Self::P> {
        sign::<T, I>(run, &self.msg, &self.ks, &self.ax)
    }
    fn data(&self, who: &I) -> Data<Self> {
        InteractiveSigningAssociatedData::new(message::<T>(&self.msg), self.ks[who].public().clone(), self.ax[who].public().clone()).unwrap()
    }
    fn agree(&self, c: &CurveRef, honest: &BTreeMap<I, &Res<Self>>) -> Result<(), String> {
        let mut first: Option<Vec<u8>> = None;
        for (i, s) in honest {
            let (sig, rid) = (*s).clone().to_backend();
            let b = sig.to_bytes().to_vec();
            let half = b.len() / 2;
            if !c.ecdsa_ok(&self.key, &Nat::from_be(&self.msg).rem(&c.n), &Nat::from_be(&b[..half]), &Nat::from_be(&b[half..])) {
                return Err(format!("{} holds an invalid signature", i));
            }
            let mut all = b;
            all.push(rid.to_byte());
            if *first.get_or_insert_with(|| all.clone()) != all {
                return Err("the signatures differ".into());
            }
        }
        Ok(())
    }
}

pub struct ResharingRig {
    pub old: Tk<T, I>,
    pub new: BTreeSet<I>,
    pub t: usize,
    pub key: Aff,
}
impl Rig for ResharingRig {
    type P = KeyResharingProtocol<T, I>;
    const NAME: &'static str = "KeyResharing";
    fn make(rng: &mut Rng, n: usize) -> Self {
        let c = curve_of::<T>();
        let ids = I::many(rng, n + 2);
        let have = pick(rng, &ids, n);
        let t0 = 1 + rng.next_u32() as usize % n;
        let old: Tk<T, I> = ThresholdKeyShare::<T, I>::new_centralized(rng, &have, t0, None).unwrap();
        let key = vk_aff::<T>(&old.values().next().unwrap().verifying_key().unwrap());
        // receivers are always at least two, one of them not a sender
        let fresh: BTreeSet<I> = ids.difference(&have).cloned().collect();
        let keep = rng.next_u32() as usize % n;
        let new: BTreeSet<I> = fresh.into_iter().chain(pick(rng, &have, keep)).collect();
        let t = 1 + rng.next_u32() as usize % new.len();
        let _ = c;
        ResharingRig { old, new, t, key }
    }
    fn ids(&self) -> BTreeSet<I> {
        self.old.keys().chain(&self.new).cloned().collect()
    }
    fn go(&self, run: &Run<I, Self::P>) -> Outcome<I, Self::P> {
        reshare::<T, I>(run, &self.old, &self.new, self.t)
    }
    fn data(&self, _: &I) -> Data<Self> {}
    fn agree(&self, c: &CurveRef, honest: &BTreeMap<I, &Res<Self>>) -> Result<(), String> {
        let mut first: Option<TksView<I>> = None;
        for (i, r) in honest {
            match (r, self.new.contains(i)) {
                (None, false) => {}
                (Some(s), true) => {
                    let v = tks_view(s);
                    if v.threshold != self.t as u64 || v.owner != *i {
                        return Err(format!("the share of {} has owner {} and threshold {}", i, v.owner, v.threshold));
                    }
                    if v.public.keys().cloned().collect::<BTreeSet<_>>() != self.new || v.ids.keys().cloned().collect::<BTreeSet<_>>() != self.new {
                        return Err(format!("{} lists other holders", i));
                    }
                    if c.mul(&v.secret, &c.gen()) != v.public[i] {
                        return Err(format!("the public share of {} does not match its secret share", i));
                    }
                    let f = first.get_or_insert_with(|| v.clone());
                    if f.public != v.public || f.ids != v.ids {
                        return Err("public shares differ".into());
                    }
                    for sub in subsets(&self.new.iter().cloned().collect::<Vec<_>>(), self.t).into_iter().take(8) {
                        let xs: Vec<Nat> = sub.iter().map(|i| v.ids[i].clone()).collect();
                        let k = sub.iter().fold(None, |a, j| c.add(&a, &c.mul(&lagrange(&c.n, &xs, &v.ids[j]), &v.public[j])));
                        if k != self.key {
                            return Err(format!("the public shares of {:?} give another key", sub));
                        }
                    }
                }
                (None, true) => return Err(format!("the new holder {} got no share", i)),
                (Some(_), false) => return Err(format!("{} is no new holder but got a share", i)),
            }
        }
        Ok(())
    }
    fn wrap(v: J) -> J {
        v
    }
}

// ---------------------------------------------------------------- attacks

/// A session in which parties send other bytes in the given places.
pub fn attacked<R: Rig>(rig: &R, seed: u64, order: Order, plan: &Plan, probe: Option<Probe<I, R::P>>) -> Outcome<I, R::P> {
    let tamper = |round: u8, from: &I, part: Part, to: Option<&I>, b: Bytes| -> Bytes {
        for (r, p, t, new) in plan.edits.get(from).into_iter().flatten() {
            if *r == round && *p == part && (t.is_none() || t.as_ref() == to) {
                return new.clone();
            }
        }
        b
    };
    let incoming = |round: u8, to: &I, from: &I, m: ProtocolMessage| -> ProtocolMessage {
        match plan.fed.get(&(round, *to, *from)) {
            Some((part, b)) => with_part(&m, *part, b.clone()),
            None => m,
        }
    };
    let mut run = Run::new(seed).order(order).tamper(&tamper);
    run.probe = probe;
    run.incoming = Some(&incoming);
    rig.go(&run)
}

/// What deviating parties do.
#[derive(Clone, Default)]
pub struct Plan {
    pub edits: BTreeMap<I, Edit>,
    /// Other bytes given to a (deviating) receiver, to make it act differently: (round, to, from).
    pub fed: BTreeMap<(u8, I, I), (Part, Bytes)>,
}
impl Plan {
    pub fn deviators(&self) -> BTreeSet<I> {
        self.edits.keys().cloned().chain(self.fed.keys().map(|x| x.1)).collect()
    }
    pub fn edit(mut self, who: I, round: u8, part: Part, to: Option<I>, b: Bytes) -> Self {
        self.edits.entry(who).or_default().insert(0, (round, part, to, b));
        self
    }
}

/// One receiver's view of a message sent in an honest run.
pub fn sent<R: Rig>(out: &Outcome<I, R::P>, from: &I, round: u8, to: &I) -> Option<ProtocolMessage> {
    out.parties.get(to)?.log.get(&(round, *from)).cloned()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Fault {
    /// Wrong blame, evidence that does not verify, honest results that do not agree.
    Blame,
    /// A panic, or an error naming nobody.
    Crash,
}

pub struct Campaign<'a> {
    pub ctx: &'a Ctx,
    pub fault: Fault,
    /// Mutants per delivered message.
    pub mutants: usize,
    /// Full sessions per case for accepted and recommitted changes.
    pub sessions: usize,
}

fn cut(s: &str) -> String {
    short(s, 90).split(|c: char| c.is_ascii_digit()).filter(|x| !x.is_empty()).collect::<Vec<_>>().join("#")
}

impl<'a> Campaign<'a> {
    pub fn report(&self, f: Fault, sig: String, detail: impl Into<String>) {
        if f == self.fault {
            self.ctx.violation(&sig, "session", detail);
        }
    }

    /// Whether the refusal of a message of `from` by `by` is one which an independent verifier confirms.
    #[allow(clippy::too_many_arguments)]
    pub fn refusal<R: Rig>(
        &self,
        rig: &R,
        shared: &[u8],
        by: &Party<I, R::P>,
        round: u8,
        from: &I,
        msg: &ProtocolMessage,
        err: &ReceiveError<I, R::P>,
        ebs: &BTreeMap<(u8, I), EchoBroadcast>,
        what: &dyn Fn() -> String,
    ) {
        let n = R::NAME;
        match err {
            ReceiveError::Local(e) => {
                self.report(Fault::Crash, format!("{}: error naming nobody when receiving in round {}: {}", n, round, cut(&e.to_string())), what())
            }
            ReceiveError::Protocol(e) => {
                let j = R::error_json(e);
                let v = variant_name(&j);
                self.ctx.measure(&format!("{}: refused with {}", n, v), 1);
                let ev = match no_panic(|| assemble(e, round, from, msg, &by.log, ebs)) {
                    Err(p) => {
                        self.report(Fault::Crash, format!("{}: panic when collecting evidence for {}", n, v), format!("{}; {}", p, what()));
                        self.report(Fault::Blame, format!("{}: no evidence for {}", n, v), what());
                        return;
                    }
                    Ok(None) => {
                        self.report(Fault::Blame, format!("{}: no evidence for {}", n, v), what());
                        return;
                    }
                    Ok(Some(ev)) => ev,
                };
                // evidence travels: what is verified is its serialized form
                let e2: Errs<R> = match from_json(&to_json(e)) {
                    Ok(e) => e,
                    Err(x) => {
                        self.report(Fault::Blame, format!("{}: {} does not survive serialization", n, v), x);
                        return;
                    }
                };
                match judge(&e2, from, shared, &rig.data(&by.id), &ev) {
                    Judgement::Accepted => self.ctx.measure("evidence verified", 1),
                    Judgement::Rejected(s) => self.report(Fault::Blame, format!("{}: evidence for {} is rejected", n, v), format!("{}; {}", s, what())),
                    Judgement::Local(s) => self.report(Fault::Blame, format!("{}: evidence for {} cannot be judged", n, v), format!("{}; {}", s, what())),
                    Judgement::Panic(s) => {
                        self.report(Fault::Blame, format!("{}: judging the evidence for {} panics", n, v), format!("{}; {}", s, what()));
                        self.report(Fault::Crash, format!("{}: judging the evidence for {} panics", n, v), format!("{}; {}", s, what()));
                    }
                }
            }
            malformed => {
                let (part, name) = match malformed {
                    ReceiveError::EchoBroadcast(_) => (Part::Eb, "echo broadcast"),
                    ReceiveError::NormalBroadcast(_) => (Part::Nb, "normal broadcast"),
                    _ => (Part::Dm, "direct message"),
                };
                self.ctx.measure(&format!("{}: malformed {} refused", n, name), 1);
                match judge_malformed::<I, R::P>(round, part, &part_of(msg, part)) {
                    Judgement::Accepted => self.ctx.measure("malformed-part claims verified", 1),
                    j => {
                        let crash = matches!(j, Judgement::Panic(_));
                        let sig = format!("{}: the claim that the {} of round {} is malformed does not verify", n, name, round);
                        self.report(Fault::Blame, sig.clone(), format!("{:?}; {}", j, what()));
                        if crash {
                            self.report(Fault::Crash, sig, format!("{:?}; {}", j, what()));
                        }
                    }
                }
            }
        }
    }

    /// How the honest parties left a session.
    pub fn ends<R: Rig>(&self, rig: &R, c: &CurveRef, seed: u64, out: &Outcome<I, R::P>, bad: &BTreeSet<I>, what: &dyn Fn() -> String) {
        let n = R::NAME;
        let shared = seed.to_le_bytes();
        for (id, e) in &out.start_errors {
            self.report(Fault::Crash, format!("{}: cannot start", n), format!("{}: {}; {}", id, e, what()));
        }
        let mut results: BTreeMap<I, &Res<R>> = BTreeMap::new();
        for (id, p) in out.parties.iter().filter(|x| !bad.contains(x.0)) {
            match p.end.as_ref().unwrap() {
                End::Result(r) => {
                    results.insert(*id, r);
                }
                End::Refused => {
                    let r = p.refusal.as_ref().unwrap();
                    self.ctx.measure("sessions refused by an honest party", 1);
                    if bad.contains(&r.from) {
                        self.refusal(rig, &shared, p, r.round, &r.from, &r.message, &r.error, &out.ebs, what);
                    } else if let ReceiveError::Local(_) = r.error {
                        self.refusal(rig, &shared, p, r.round, &r.from, &r.message, &r.error, &out.ebs, what);
                    } else {
                        self.report(Fault::Blame, format!("{}: an honest party is blamed in round {}", n, r.round), format!("{} blames {}: {:?}; {}", id, r.from, r.error, what()));
                    }
                }
                End::Local { round, phase, msg } => {
                    self.report(Fault::Crash, format!("{}: error naming nobody when {} in round {}: {}", n, phase, round, cut(msg)), format!("{}: {}; {}", id, msg, what()))
                }
                End::Panic { round, phase, msg } => {
                    self.report(Fault::Crash, format!("{}: panic when {} in round {}: {}", n, phase, round, cut(msg)), format!("{}: {}; {}", id, msg, what()))
                }
                End::Stuck { .. } => self.ctx.measure("honest parties left waiting", 1),
            }
        }
        if !results.is_empty() {
            self.ctx.measure("honest results compared", results.len() as u64);
            if let Err(e) = rig.agree(c, &results) {
                self.report(Fault::Blame, format!("{}: honest results do not fit", n), format!("{}; {}", e, what()));
            }
        }
    }
}
