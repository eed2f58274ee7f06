// C27: what was sent in one session, or by one party, is of no use in another session or to another party.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::sync::Mutex;
use std::vec;
use std::vec::Vec;

use super::common::*;
use super::protofix::*;
use super::rigs::*;
use super::session::*;
use super::util::*;
use crate::entities::Sid;
use crate::params::SchemeParams;
use crate::{AuxInfo, KeyShare};
use manul::protocol::*;
use rand_core::RngCore;
use serde_json::{json, Value as J};

macro_rules! params {
    ($name:ident, $sb:expr, $sp:expr, $l:expr, $lp:expr, $eps:expr) => {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
        pub struct $name;
        impl SchemeParams for $name {
            type Curve = <T as SchemeParams>::Curve;
            type Digest = <T as SchemeParams>::Digest;
            const SECURITY_BITS: usize = $sb;
            const SECURITY_PARAMETER: usize = $sp;
            const L_BOUND: u32 = $l;
            const LP_BOUND: u32 = $lp;
            const EPS_BOUND: u32 = $eps;
            type Paillier = <T as SchemeParams>::Paillier;
            type ExtraWideUint = <T as SchemeParams>::ExtraWideUint;
        }
    };
}
params!(OtherBits, T::SECURITY_BITS + 8, T::SECURITY_PARAMETER, T::L_BOUND, T::LP_BOUND, T::EPS_BOUND);
params!(OtherParam, T::SECURITY_BITS, T::SECURITY_PARAMETER + 8, T::L_BOUND, T::LP_BOUND, T::EPS_BOUND);
params!(OtherL, T::SECURITY_BITS, T::SECURITY_PARAMETER, T::L_BOUND + 1, T::LP_BOUND, T::EPS_BOUND);
params!(OtherLp, T::SECURITY_BITS, T::SECURITY_PARAMETER, T::L_BOUND, T::LP_BOUND - 1, T::EPS_BOUND);
// proofs made with these are in the ranges of the original ones
params!(OtherEps, T::SECURITY_BITS, T::SECURITY_PARAMETER, T::L_BOUND, T::LP_BOUND, T::EPS_BOUND - 1);

fn recode<A: serde::Serialize, B: serde::de::DeserializeOwned>(m: &BTreeMap<I, A>) -> BTreeMap<I, B> {
    m.iter().map(|(i, x)| (*i, from_json::<B>(&to_json(x)).unwrap())).collect()
}
fn logs<P: Protocol<I>>(o: &Outcome<I, P>) -> Msgs {
    o.parties.iter().flat_map(|(to, p)| p.log.iter().map(move |((r, from), m)| ((*r, *from, *to), m.clone()))).collect()
}

/// A rig that can be set up for given parties.
trait Named: Rig {
    fn named(rng: &mut Rng, ids: &BTreeSet<I>) -> Self;
    /// Makes two parties alike in everything but the name.
    fn alike(&mut self, _a: &I, _b: &I) {}
    /// The same session under other scheme parameters.
    fn elsewhere(&self, s: &Start<Self>) -> Msgs;
}
fn run_of<'a, P: Protocol<I>, R: Rig>(s: &Start<R>) -> Run<'a, I, P> {
    let mut run = Run::new(s.schedule);
    run.shared = s.shared.clone();
    run.seeds = s.rig.ids().iter().enumerate().map(|(k, i)| (k, s.rngs[i])).collect();
    run
}
impl Named for KeyInitRig {
    fn named(_: &mut Rng, ids: &BTreeSet<I>) -> Self {
        KeyInitRig::of(ids.clone())
    }
    fn elsewhere(&self, s: &Start<Self>) -> Msgs {
        logs(&key_init::<OtherEps, I>(&run_of(s), &self.ids()))
    }
}
impl Named for AuxGenRig {
    fn named(_: &mut Rng, ids: &BTreeSet<I>) -> Self {
        AuxGenRig::of(ids.clone())
    }
    fn elsewhere(&self, s: &Start<Self>) -> Msgs {
        logs(&aux_gen::<OtherEps, I>(&run_of(s), &self.ids()))
    }
}
impl Named for KeyRefreshRig {
    fn named(_: &mut Rng, ids: &BTreeSet<I>) -> Self {
        KeyRefreshRig::of(ids.clone())
    }
    fn elsewhere(&self, s: &Start<Self>) -> Msgs {
        logs(&key_refresh::<OtherEps, I>(&run_of(s), &self.ids()))
    }
}
impl Named for SigningRig {
    fn named(rng: &mut Rng, ids: &BTreeSet<I>) -> Self {
        SigningRig::with(rng, ids.clone())
    }
    fn elsewhere(&self, s: &Start<Self>) -> Msgs {
        logs(&sign::<OtherEps, I>(&run_of(s), &self.msg, &recode(&self.ks), &recode(&self.ax)))
    }
    fn alike(&mut self, a: &I, b: &I) {
        let same = |m: &mut J| {
            let v = m.as_array().unwrap().iter().find(|x| x[0] == json!(a)).unwrap()[1].clone();
            for x in m.as_array_mut().unwrap() {
                if x[0] == json!(b) {
                    x[1] = v.clone();
                }
            }
        };
        let (ka, xa) = (to_json(&self.ks[a])["secret"].clone(), to_json(&self.ax[a])["secret"].clone());
        for (i, k) in self.ks.iter_mut() {
            let mut j = to_json(k);
            same(&mut j["public"]);
            if i == b {
                j["secret"] = ka.clone();
            }
            *k = from_json::<KeyShare<T, I>>(&j).unwrap();
        }
        for (i, k) in self.ax.iter_mut() {
            let mut j = to_json(k);
            same(&mut j["public"]);
            if i == b {
                j["secret"] = xa.clone();
            }
            *k = from_json::<AuxInfo<T, I>>(&j).unwrap();
        }
    }
}

/// Everything a session starts from.
struct Start<'a, R: Rig> {
    rig: &'a R,
    schedule: u64,
    shared: Vec<u8>,
    /// The party generators, by name.
    rngs: BTreeMap<I, u64>,
}
type Msgs = BTreeMap<(u8, I, I), ProtocolMessage>;

fn play<R: Rig>(s: &Start<R>, tamper: Option<Tamper<I>>) -> Outcome<I, R::P> {
    let mut run = run_of(s);
    run.tamper = tamper;
    s.rig.go(&run)
}
fn messages<R: Rig>(o: &Outcome<I, R::P>) -> Msgs {
    logs(o)
}

/// Replays messages of `who2` in the session `other` as those of `who` in the session `here`.
fn replay<R: Rig>(ctx: &Ctx, how: &str, here: &Start<R>, genuine: &Msgs, other: &Msgs, who: I, who2: I, detail: &str) {
    // what the other session has in place of a part
    let lookup = |round: u8, part: Part, to: Option<&I>| -> Option<Bytes> {
        let to2 = match to {
            Some(t) if *t == who2 => Some(who),
            x => x.copied(),
        };
        let m = other.iter().find(|((r, f, t), _)| *r == round && *f == who2 && to2.map(|x| x == *t).unwrap_or(true)).map(|x| x.1)?;
        Some(part_of(m, part))
    };
    let rounds: BTreeSet<u8> = genuine.keys().filter(|x| x.1 == who).map(|x| x.0).collect();
    let mut plans: Vec<(String, BTreeSet<(u8, Part)>)> = vec![];
    for r in &rounds {
        for p in PARTS {
            plans.push((format!("{:?} of round {}", p, r), [(*r, p)].into()));
        }
        if *r > 1 {
            plans.push((format!("all of round {}", r), PARTS.map(|p| (*r, p)).into()));
        }
        plans.push((format!("all up to round {}", r), (1..=*r).flat_map(|q| PARTS.map(|p| (q, p))).collect()));
        if *r > 2 {
            plans.push((format!("all from round 2 to {}", r), (2..=*r).flat_map(|q| PARTS.map(|p| (q, p))).collect()));
        }
    }
    for (name, places) in plans {
        // the parties given something else than what was meant for them
        let given: Mutex<BTreeSet<I>> = Mutex::new(BTreeSet::new());
        let everyone = here.rig.ids();
        let tamper = |round: u8, from: &I, part: Part, to: Option<&I>, b: Bytes| -> Bytes {
            if *from != who || !places.contains(&(round, part)) {
                return b;
            }
            let Some(new) = lookup(round, part, to) else { return b };
            if new != b {
                let mut g = given.lock().unwrap();
                match to {
                    Some(t) => {
                        g.insert(*t);
                    }
                    None => g.extend(everyone.iter().filter(|x| **x != who)),
                }
            }
            new
        };
        let out = play(here, Some(&tamper));
        let given = given.into_inner().unwrap();
        if given.is_empty() {
            ctx.measure(&format!("{}: {}: replays that change nothing", R::NAME, how), 1);
            continue;
        }
        ctx.count(&format!("{}: {}: replays", R::NAME, how));
        ctx.distinct(format!("{} {} {} {}", R::NAME, how, name, given.len()).as_bytes());
        // every opening message of a signer has a proof for its receiver
        let opening = R::NAME == "InteractiveSigning" && !["another message", "another party's values"].contains(&how) && name == "all up to round 1";
        for i in given.iter().filter(|i| **i != who) {
            let Some(p) = out.parties.get(i) else { continue };
            if opening {
                ctx.measure("opening messages of signers", 1);
                let refused = matches!(p.end.as_ref().unwrap(), End::Refused) && p.refusal.as_ref().is_some_and(|r| r.from == who && r.round == 1);
                if !refused {
                    ctx.violation(&format!("{}: {}: an opening message is not refused at once", R::NAME, how), "replay", format!("{}: {}; {}", i, p.end.as_ref().unwrap().kind(), detail));
                    continue;
                }
            }
            let bad = match p.end.as_ref().unwrap() {
                End::Refused => {
                    let r = p.refusal.as_ref().unwrap();
                    ctx.measure(&format!("{}: {}: refused in round {}", R::NAME, how, r.round), 1);
                    if r.from == who {
                        continue;
                    }
                    format!("{} refuses {} instead of {}", i, r.from, who)
                }
                End::Stuck { .. } => {
                    ctx.measure(&format!("{}: {}: never finished", R::NAME, how), 1);
                    continue;
                }
                End::Result(_) => format!("{} accepts it and finishes", i),
                x => format!("{}: {}", i, x.kind()),
            };
            let what = match p.end.as_ref().unwrap() {
                End::Result(_) => "accepted",
                End::Refused => "blamed on another party",
                _ => "ends in an error naming nobody",
            };
            ctx.violation(&format!("{}: {}: {} replayed: {}", R::NAME, how, name, what), "replay", format!("{}; {}", bad, detail));
        }
    }
}

fn one<R: Named>(ctx: &Ctx, label: &str, k: u64, n: usize) {
    let mut rng = rng_for(label, k);
    let ids: BTreeSet<I> = I::many(&mut rng, n);
    let list: Vec<I> = ids.iter().cloned().collect();
    let setup = rng.next_u64();
    let rig_for = |x: u64, ids: &BTreeSet<I>| R::named(&mut rng_for("replay rig", x), ids);
    let rig = rig_for(setup, &ids);
    let at = rng.next_u32() as usize % n;
    let (who, next) = (list[at], list[(at + 1) % n]);
    let rngs: BTreeMap<I, u64> = list.iter().map(|i| (*i, rng.next_u64())).collect();
    let shared: Vec<u8> = (0..rng.next_u32() % 40).map(|_| rng.next_u32() as u8).collect();
    let here = Start { rig: &rig, schedule: rng.next_u64() >> 20, shared: shared.clone(), rngs: rngs.clone() };
    let genuine_out = play(&here, None);
    let genuine = messages::<R>(&genuine_out);
    let detail = |x: &str| format!("{} case {}: parties {:?}, replaying {} as {}", R::NAME, k, list, x, who);
    ctx.measure(&format!("{} sessions replayed into", R::NAME), 1);

    // the same party generators, other shared randomness
    let mut s2 = shared.clone();
    match k % 4 {
        0 => s2.push(0),
        1 => s2.insert(0, 0),
        2 if !s2.is_empty() => s2[0] ^= 1,
        _ => {
            s2.pop();
            s2.push(7);
            s2.push(9);
        }
    }
    let there = Start { rig: &rig, schedule: here.schedule, shared: s2.clone(), rngs: rngs.clone() };
    let m = messages::<R>(&play(&there, None));
    replay(ctx, "other shared randomness", &here, &genuine, &m, who, who, &detail("the session with other shared randomness"));
    // the same with other values of its own
    let mut r2 = rngs.clone();
    r2.insert(who, rng.next_u64());
    let there = Start { rig: &rig, schedule: here.schedule, shared: s2, rngs: r2 };
    let m = messages::<R>(&play(&there, None));
    replay(ctx, "other shared randomness and own values", &here, &genuine, &m, who, who, &detail("the session with other shared randomness and own values"));

    // other scheme parameters
    let m = rig.elsewhere(&here);
    if !m.keys().any(|x| x.0 > 1) {
        ctx.inconclusive(format!("{}: no session under other scheme parameters", R::NAME));
    }
    replay(ctx, "other scheme parameters", &here, &genuine, &m, who, who, &detail("the session with other scheme parameters"));

    // another party's generator differs
    let mut r2 = rngs.clone();
    r2.insert(next, rng.next_u64());
    let there = Start { rig: &rig, schedule: here.schedule, shared: shared.clone(), rngs: r2 };
    let m = messages::<R>(&play(&there, None));
    replay(ctx, "another party's values", &here, &genuine, &m, who, who, &detail("the session with other values of one party"));

    // another party has another name
    let mut ids2 = ids.clone();
    ids2.remove(&next);
    let mut named = next.wrapping_add(1);
    while ids2.contains(&named) || named == next {
        named = named.wrapping_add(1);
    }
    ids2.insert(named);
    let mut r2 = rngs.clone();
    r2.insert(named, rngs[&next]);
    let rig2 = rig_for(setup, &ids2);
    let there = Start { rig: &rig2, schedule: here.schedule, shared: shared.clone(), rngs: r2 };
    let mut m = messages::<R>(&play(&there, None));
    // what was meant for the renamed party
    let moved: Vec<_> = m.iter().filter(|x| x.0 .2 == named).map(|((r, f, _), v)| ((*r, *f, next), v.clone())).collect();
    m.extend(moved);
    replay(ctx, "other participants", &here, &genuine, &m, who, who, &detail("the session with other participants"));

    // nothing in common
    let rig2 = rig_for(setup ^ 1, &ids);
    let r2 = rngs.keys().map(|i| (*i, rng.next_u64())).collect();
    let there = Start { rig: &rig2, schedule: here.schedule, shared: vec![1, 2, 3], rngs: r2 };
    let m = messages::<R>(&play(&there, None));
    replay(ctx, "another session", &here, &genuine, &m, who, who, &detail("an unrelated session"));

    // the next party is the same in everything but its name
    let mut rig = rig_for(setup, &ids);
    rig.alike(&next, &who);
    let mut r2 = rngs.clone();
    r2.insert(who, rngs[&next]);
    let here = Start { rig: &rig, schedule: here.schedule, shared, rngs: r2 };
    let genuine = messages::<R>(&play(&here, None));
    replay(ctx, "another party", &here, &genuine, &genuine, who, next, &detail(&format!("messages of {}", next)));
}

/// Signing sessions that differ in the keys only, the auxiliary data only, or the message only.
fn signing_pairs(ctx: &Ctx, k: u64, n: usize) {
    let mut rng = rng_for("signing pairs", k);
    let ids: BTreeSet<I> = I::many(&mut rng, n);
    let list: Vec<I> = ids.iter().cloned().collect();
    let rig = SigningRig::with(&mut rng, ids.clone());
    let at = rng.next_u32() as usize % n;
    let (who, next) = (list[at], list[(at + 1) % n]);
    let rngs: BTreeMap<I, u64> = list.iter().map(|i| (*i, rng.next_u64())).collect();
    let here = Start { rig: &rig, schedule: rng.next_u64() >> 20, shared: vec![5; 8], rngs: rngs.clone() };
    let genuine = messages::<SigningRig>(&play(&here, None));
    let detail = |x: &str| format!("case {}: parties {:?}, {}, replaying {}", k, list, x, who);
    let copy = |ks: Ks<T, I>, ax: Ax<T, I>, msg: Vec<u8>| SigningRig { ks, ax, msg, key: rig.key.clone() };
    let mut other = rngs.clone();
    other.insert(who, rng.next_u64());
    let with = |r: &SigningRig, rngs: &BTreeMap<I, u64>| messages::<SigningRig>(&play(&Start { rig: r, schedule: here.schedule, shared: here.shared.clone(), rngs: rngs.clone() }, None));
    let again = |r: &SigningRig| with(r, &rngs);

    // another party's share differs
    let mut ks2 = rig.ks.clone();
    let fresh = SigningRig::with(&mut rng, ids.clone());
    let put = |m: &mut J, v: &J| {
        for x in m.as_array_mut().unwrap() {
            if x[0] == json!(next) {
                x[1] = v.clone();
            }
        }
    };
    let entry = |j: &J| j.as_array().unwrap().iter().find(|x| x[0] == json!(next)).unwrap()[1].clone();
    let donor = to_json(&fresh.ks[&next]);
    for (i, s) in ks2.iter_mut() {
        let mut j = to_json(s);
        put(&mut j["public"], &entry(&donor["public"]));
        if *i == next {
            j["secret"] = donor["secret"].clone();
        }
        *s = from_json::<KeyShare<T, I>>(&j).unwrap();
    }
    let pair = copy(ks2, rig.ax.clone(), rig.msg.clone());
    replay(ctx, "another party's share", &here, &genuine, &again(&pair), who, who, &detail("another key share of one party"));
    replay(ctx, "another party's share and own values", &here, &genuine, &with(&pair, &other), who, who, &detail("another key share of one party, and own values"));

    // another party's auxiliary data differs
    let mut ax2 = rig.ax.clone();
    let donor = to_json(&fresh.ax[&next]);
    for (i, s) in ax2.iter_mut() {
        let mut j = to_json(s);
        put(&mut j["public"], &entry(&donor["public"]));
        if *i == next {
            j["secret"] = donor["secret"].clone();
        }
        *s = from_json::<AuxInfo<T, I>>(&j).unwrap();
    }
    let pair = copy(rig.ks.clone(), ax2, rig.msg.clone());
    replay(ctx, "another party's auxiliary data", &here, &genuine, &again(&pair), who, who, &detail("other auxiliary data of one party"));
    replay(ctx, "another party's auxiliary data and own values", &here, &genuine, &with(&pair, &other), who, who, &detail("other auxiliary data of one party, and own values"));

    let mut msg2 = rig.msg.clone();
    let last = msg2.len() - 1;
    msg2[last] ^= 1;
    let m = again(&copy(rig.ks.clone(), rig.ax.clone(), msg2));
    replay(ctx, "another message", &here, &genuine, &m, who, who, &detail("another message"));
}

/// Session identifiers of different participant sets or shared randomness are different.
fn identifiers(ctx: &Ctx, k: u64) {
    let mut rng = rng_for("identifiers", k);
    let mut seen: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut put = |s: Sid, what: String, kind: &str| {
        let b = serde_json::to_vec(&s).unwrap();
        ctx.count("session identifiers");
        ctx.distinct(what.as_bytes());
        if let Some(old) = seen.get(&b) {
            if *old != what {
                ctx.violation(&format!("one session identifier for different {}", kind), "identifier", format!("{} and {}", old, what));
            }
        }
        seen.insert(b, what);
    };
    for _ in 0..40 {
        let shared: Vec<u8> = (0..rng.next_u32() % 3).map(|_| (rng.next_u32() % 2) as u8).collect();
        let n = 1 + rng.next_u32() as usize % 3;
        let ids: BTreeSet<u32> = (0..n).map(|_| rng.next_u32() % 4).collect();
        put(Sid::new::<T, u32>(&shared, &ids), format!("numbers {:?} {:?}", shared, ids), "participants named by numbers");
        put(Sid::new::<OtherBits, u32>(&shared, &ids), format!("security bits: {:?} {:?}", shared, ids), "scheme parameters");
        put(Sid::new::<OtherParam, u32>(&shared, &ids), format!("security parameter: {:?} {:?}", shared, ids), "scheme parameters");
        put(Sid::new::<OtherL, u32>(&shared, &ids), format!("L: {:?} {:?}", shared, ids), "scheme parameters");
        put(Sid::new::<OtherLp, u32>(&shared, &ids), format!("L': {:?} {:?}", shared, ids), "scheme parameters");
        put(Sid::new::<OtherEps, u32>(&shared, &ids), format!("epsilon: {:?} {:?}", shared, ids), "scheme parameters");
    }
    let mut seen: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    let mut put = |s: Sid, what: String, kind: &str| {
        let b = serde_json::to_vec(&s).unwrap();
        ctx.count("session identifiers");
        ctx.distinct(what.as_bytes());
        if let Some(old) = seen.get(&b) {
            if *old != what {
                ctx.violation(&format!("one session identifier for different {}", kind), "identifier", format!("{} and {}", old, what));
            }
        }
        seen.insert(b, what);
    };
    for _ in 0..60 {
        let shared: Vec<u8> = (0..rng.next_u32() % 2).map(|_| (rng.next_u32() % 2) as u8).collect();
        let n = 1 + rng.next_u32() as usize % 3;
        let ids: BTreeSet<String> = (0..n).map(|_| (0..rng.next_u32() % 4).map(|_| ['a', 'b'][(rng.next_u32() % 2) as usize]).collect()).collect();
        put(Sid::new::<T, String>(&shared, &ids), format!("strings {:?} {:?}", shared, ids), "participants named by strings");
    }
}

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C27");
        ctx.par(scale(60, 4000), |k| {
            identifiers(&ctx, k);
            let n = [2, 3, 3, 4][(k / 5 % 4) as usize];
            match k % 5 {
                0 => one::<KeyInitRig>(&ctx, "replay key init", k, n),
                1 => one::<AuxGenRig>(&ctx, "replay aux gen", k, n.min(3)),
                2 => one::<KeyRefreshRig>(&ctx, "replay key refresh", k, n.min(3)),
                3 => one::<SigningRig>(&ctx, "replay signing", k, n.min(3)),
                _ => signing_pairs(&ctx, k, n.min(3)),
            }
        });
        ctx.finish(
            "Pairs of sessions that differ in one thing (shared randomness, one scheme parameter, one party's name, one party's random values, one key share, one party's auxiliary data, the message, or everything) with all other generators equal, and parties alike in everything but the name: every message part, every message and every prefix of one party's transcript is replayed from one into the other; every honest receiver of a replayed part that differs must refuse its sender or never finish, and an opening message of a signer must be refused at once; the same with other values of the replaying party",
            &["key resharing has no proofs, commitments or session binding, and is left to manul's signatures, so it is not replayed"],
        )
    })
}
