// C28: inputs that cannot lead to a usable result are refused before anything is sent, all others are accepted.
use std::collections::BTreeSet;
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec;

use super::common::*;
use super::ecref::*;
use super::protofix::*;
use super::zkfix::*;
use crate::dev::TestParams;
use crate::entities::*;
use crate::k256::ProductionParams112;
use crate::params::*;
use crate::protocols::*;
use manul::protocol::EntryPoint;

fn starts<Id: Tid, E: EntryPoint<Id>>(rng: &mut Rng, e: E, id: &Id) -> Result<(), String> {
    e.make_round(rng, b"shared", id).map(|_| ()).map_err(|e| e.to_string())
}

struct Judge<'a> {
    ctx: &'a Ctx,
    label: &'a str,
}
impl Judge<'_> {
    fn check(&self, what: &str, ok: bool, detail: &dyn Fn() -> String, f: impl FnOnce() -> Result<(), String>) {
        self.ctx.count(if ok { "fitting inputs" } else { "unfitting inputs" });
        let sig = format!("{}: {}: {}", self.label, what, detail());
        self.ctx.distinct(sig.as_bytes());
        if ok == (sig.len() % 2 == 0) {
            self.ctx.sample(if ok { "fitting" } else { "unfitting" }, sig);
        }
        self.ctx.case(&format!("{}: {}", self.label, what), detail, || match (f(), ok) {
            (Ok(()), true) | (Err(_), false) => Ok(()),
            (Ok(()), false) => Err("accepted".into()),
            (Err(e), true) => Err(format!("refused: {}", e)),
        })
    }
}

fn stranger<Id: Tid>(rng: &mut Rng, ids: &BTreeSet<Id>) -> Id {
    loop {
        let s = Id::some(rng);
        if !ids.contains(&s) {
            return s;
        }
    }
}

/// Participants of the protocols without further inputs.
fn participants<S: SchemeParams, Id: Tid>(ctx: &Ctx, label: &str, k: u64, primes: bool) {
    let rng = &mut rng_for("c28/participants", k);
    let ids = Id::many(rng, k as usize % 5);
    let j = Judge { ctx, label };
    let me = ids.iter().nth(k as usize % ids.len().max(1)).cloned();
    let out = stranger(rng, &ids);
    for (id, ok) in me.iter().map(|m| (m, true)).chain([(&out, false)]) {
        let d = &|| format!("{:?} in {:?}", id, ids);
        j.check("key generation", ok, d, || starts(rng, KeyInit::<S, Id>::new(ids.clone()).map_err(|e| e.to_string())?, id));
        if primes || !ok {
            j.check("aux data generation", ok, d, || starts(rng, AuxGen::<S, Id>::new(ids.clone()).map_err(|e| e.to_string())?, id));
            j.check("key refresh", ok, d, || starts(rng, KeyRefresh::<S, Id>::new(ids.clone()).map_err(|e| e.to_string())?, id));
        }
    }
}

/// Signing: one owner, one set of parties, and the party itself.
fn signing<S: SchemeParams, Id: Tid>(ctx: &Ctx, label: &str, k: u64) {
    let rng = &mut rng_for("c28/signing", k);
    let c = curve_of::<S>();
    let j = Judge { ctx, label };
    let all = Id::many(rng, 4);
    let ax = quick_aux::<S, Id>(rng, &all);
    let msg = message::<S>(&vec![k as u8; c.len]);
    let list: vec::Vec<Id> = all.iter().cloned().collect();
    for n in 1..=3 {
        for sub in subsets(&list, n) {
            let sub: BTreeSet<Id> = sub.into_iter().collect();
            let ks = KeyShare::<S, Id>::new_centralized(rng, &sub, None);
            for other in subsets(&list, n).into_iter().chain(subsets(&list, n + 1)) {
                if rng.next_u32() % 4 != 0 && other.len() == n {
                    continue;
                }
                let other: BTreeSet<Id> = other.into_iter().collect();
                let owner = sub.iter().nth(rng.next_u32() as usize % n).unwrap();
                let aux_owner = other.iter().nth(rng.next_u32() as usize % other.len()).unwrap();
                let me = list[rng.next_u32() as usize % 4].clone();
                for (aux_owner, me) in [(aux_owner, &me), (owner, &me), (owner, owner)] {
                    if !other.contains(aux_owner) {
                        continue;
                    }
                    for (other, same) in [(&other, other == sub), (&sub, true)] {
                        if !other.contains(aux_owner) {
                            continue;
                        }
                        let ok = same && owner == aux_owner && owner == me;
                        let d = &|| format!("share of {:?} among {:?}, aux data of {:?} among {:?}, run by {:?}", owner, sub, aux_owner, other, me);
                        j.check("signing", ok, d, || {
                            let a = ax[aux_owner].clone().subset(other).map_err(|e| format!("subset: {}", e));
                            let e = InteractiveSigning::<S, Id>::new(msg.clone(), ks[owner].clone(), a?).map_err(|e| e.to_string())?;
                            starts(rng, e, me)
                        });
                        j.check("associated data", same, d, || {
                            let a = ax[aux_owner].clone().subset(other).map_err(|e| e.to_string())?;
                            InteractiveSigningAssociatedData::<S, Id>::new(msg.clone(), ks[owner].public().clone(), a.public().clone())
                                .map(|_| ())
                                .map_err(|e| format!("{:?}", e))
                        });
                    }
                }
            }
        }
    }
}

/// Threshold shares: dealing and conversion.
fn thresholds<S: SchemeParams, Id: Tid>(ctx: &Ctx, label: &str, k: u64) {
    let rng = &mut rng_for("c28/thresholds", k);
    let j = Judge { ctx, label };
    let n = 1 + k as usize % 5;
    let ids = Id::many(rng, n);
    let list: vec::Vec<Id> = ids.iter().cloned().collect();
    let out = stranger(rng, &ids);
    for t in (0..=n + 2).chain([u32::MAX as usize, 1 << 32, (1 << 32) + 1, usize::MAX]) {
        let mut made = None;
        j.check("dealing", (1..=n).contains(&t), &|| format!("{} of {}", t, n), || {
            made = Some(ThresholdKeyShare::<S, Id>::new_centralized(rng, &ids, t, None).map_err(|e| e.to_string())?);
            Ok(())
        });
        let Some(made) = made.filter(|_| (1..=n).contains(&t)) else { continue };
        for size in 0..=n {
            for sub in subsets(&list, size) {
                let who = &made[&list[rng.next_u32() as usize % n]];
                let mut sub: BTreeSet<Id> = sub.into_iter().collect();
                let mut conv = |what: &str, sub: &BTreeSet<Id>, ok: bool| {
                    let d = &|| format!("{:?} converts its share of {} of {} for {:?}", who.owner, t, n, sub);
                    j.check(what, ok, d, || who.to_key_share(sub).map(|_| ()).map_err(|e| e.to_string()));
                };
                let ok = size == t && sub.contains(&who.owner);
                conv("conversion", &sub, ok);
                sub.insert(out.clone());
                conv("conversion with a stranger", &sub, false);
            }
        }
    }
}

/// Subsets of aux data, and changes applied to key shares.
fn parts<S: SchemeParams, Id: Tid>(ctx: &Ctx, label: &str, k: u64) {
    let rng = &mut rng_for("c28/parts", k);
    let j = Judge { ctx, label };
    let all = Id::many(rng, 4);
    let list: vec::Vec<Id> = all.iter().cloned().collect();
    let out = stranger(rng, &all);
    let ax = quick_aux::<S, Id>(rng, &all);
    for size in 0..=4 {
        for sub in subsets(&list, size) {
            let sub: BTreeSet<Id> = sub.into_iter().collect();
            let mut with: BTreeSet<Id> = sub.clone();
            with.insert(out.clone());
            for (set, known) in [(&sub, true), (&with, false)] {
                for (id, a) in &ax {
                    let d = &|| format!("aux data of {:?} among {:?} for {:?}", id, all, set);
                    j.check("subset of aux data", known && set.contains(id), d, || a.clone().subset(set).map(|_| ()).map_err(|e| e.to_string()));
                    j.check("subset of public aux data", known, d, || {
                        a.public().clone().subset(set).map(|_| ()).map_err(|e| e.to_string())
                    });
                }
            }
            if size == 0 {
                continue;
            }
            let ks = KeyShare::<S, Id>::new_centralized(rng, &sub, None);
            for other in subsets(&list, size).into_iter().chain(subsets(&list, size + 1)).chain(subsets(&list, size - 1)) {
                let other: BTreeSet<Id> = other.into_iter().collect();
                let owner = sub.iter().nth(rng.next_u32() as usize % size).unwrap();
                for changed in list.iter() {
                    let ok = other == sub && changed == owner;
                    let change = KeyShareChange::<S, Id> {
                        owner: changed.clone(),
                        secret_share_change: crate::tools::Secret::init_with(|| crate::curve::Scalar::from(0u64)),
                        public_share_changes: other.iter().map(|id| (id.clone(), crate::curve::Point::identity())).collect::<std::collections::BTreeMap<_, _>>().into(),
                    };
                    let d = &|| format!("share of {:?} among {:?}, change of {:?} among {:?}", owner, sub, changed, other);
                    j.check("update", ok, d, || ks[owner].clone().update(change).map(|_| ()).map_err(|e| e.to_string()));
                }
            }
        }
    }
}

fn resharing<S: SchemeParams, Id: Tid>(ctx: &Ctx, label: &str, k: u64) {
    let rng = &mut rng_for("c28/resharing", k);
    let j = Judge { ctx, label };
    let n = 1 + k as usize % 4;
    let ids = Id::many(rng, n);
    let t = 1 + rng.next_u32() as usize % n;
    let Ok(made) = ThresholdKeyShare::<S, Id>::new_centralized(rng, &ids, t, None) else {
        return ctx.inconclusive("no threshold shares");
    };
    let any = made.values().next().unwrap();
    let more = Id::many(rng, 3);
    let everyone: BTreeSet<Id> = ids.iter().chain(&more).cloned().collect();
    let vk = any.verifying_key().unwrap();
    for _ in 0..12 {
        let size = rng.next_u32() as usize % (everyone.len() + 1);
        let new = pick(rng, &everyone, size);
        let nt = match rng.next_u32() % 4 {
            0 => rng.next_u32() as usize % (new.len() + 3),
            1 => new.len() + rng.next_u32() as usize % 2,
            _ => 1 + rng.next_u32() as usize % new.len().max(1),
        };
        let holder = NewHolder::<S, Id> { verifying_key: vk, old_threshold: t, old_holders: pick(rng, &ids, t) };
        for me in &everyone {
            for share in [None, made.get(me), made.values().last(), made.values().next()] {
                for role in [None, Some(&holder)] {
                    let ok = (share.is_some() || role.is_some())
                        && (1..=new.len()).contains(&nt)
                        && share.map_or(true, |s| &s.owner == me)
                        && (role.is_none() || new.contains(me));
                    let d = &|| {
                        let s = share.map(|s| s.owner.clone());
                        format!("{:?} with the share of {:?}, new holder: {}, to {} of {:?}", me, s, role.is_some(), nt, new)
                    };
                    j.check("resharing", ok, d, || {
                        let e = KeyResharing::<S, Id>::new(share.map(|s| OldHolder { key_share: s.clone() }), role.cloned(), new.clone(), nt);
                        starts(rng, e, me)
                    });
                }
            }
        }
    }
}

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C28");
        let n = scale(60, 1200);
        ctx.par(n, |k| match k % 4 {
            0 => participants::<TestParams, u32>(&ctx, "tiny32, number ids", k / 4, true),
            1 => participants::<TestParams, String>(&ctx, "tiny32, string ids", k / 4, true),
            2 => participants::<ProductionParams112, u32>(&ctx, "secp256k1, number ids", k / 4, false),
            _ => participants::<ProductionParams112, String>(&ctx, "secp256k1, string ids", k / 4, false),
        });
        ctx.par(n, |k| match k % 2 {
            0 => signing::<TestParams, u32>(&ctx, "tiny32, number ids", k / 2),
            _ => signing::<TestParams, String>(&ctx, "tiny32, string ids", k / 2),
        });
        ctx.par(n / 4, |k| match k % 2 {
            0 => parts::<TestParams, u32>(&ctx, "tiny32, number ids", k / 2),
            _ => parts::<TestParams, String>(&ctx, "tiny32, string ids", k / 2),
        });
        ctx.par(n * 3, |k| match k % 4 {
            0 => thresholds::<TestParams, u32>(&ctx, "tiny32, number ids", k / 4),
            1 => thresholds::<TestParams, String>(&ctx, "tiny32, string ids", k / 4),
            2 => thresholds::<ProductionParams112, u32>(&ctx, "secp256k1, number ids", k / 4),
            _ => thresholds::<ProductionParams112, String>(&ctx, "secp256k1, string ids", k / 4),
        });
        ctx.par(n * 3, |k| match k % 3 {
            0 => resharing::<TestParams, u32>(&ctx, "tiny32, number ids", k / 3),
            1 => resharing::<TestParams, String>(&ctx, "tiny32, string ids", k / 3),
            _ => resharing::<ProductionParams112, u32>(&ctx, "secp256k1, number ids", k / 3),
        });
        ctx.finish(
            "an evaluation is one entry point, dealer or conversion called with one combination of inputs; its acceptance must be exactly what the harness's own rule says, without a panic",
            &["what is wrong only in relation to other parties' inputs (different sets, messages) is decided by C27"],
        )
    })
}
