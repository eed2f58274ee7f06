// C18: key shares, share updates and aux data stay mutually consistent, over whole update histories.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::sync::Mutex;
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::protofix::*;
use super::session::*;
use super::util::*;
use super::zkfix::*;
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::params::SchemeParams;
use crate::{AuxInfo, InteractiveSigning, InteractiveSigningAssociatedData, KeyShare, KeyShareChange};
use rand_core::RngCore;
use serde_json::{json, Value as J};

fn pt_json<S: SchemeParams>(c: &CurveRef, v: &Nat) -> J {
    to_json(&mk_sc::<S>(c, v).mul_by_generator())
}
fn change<S: SchemeParams, Id: Tid>(c: &CurveRef, owner: &Id, deltas: &BTreeMap<Id, Nat>) -> KeyShareChange<S, Id> {
    let public: Vec<J> = deltas.iter().map(|(i, d)| json!([to_json(i), pt_json::<S>(c, d)])).collect();
    from_json(&json!({"owner": to_json(owner), "secret_share_change": sc_json::<S>(c, deltas.get(owner).unwrap_or(&Nat::zero())), "public_share_changes": public}))
        .expect("a well-formed change")
}
fn zero_sum<Id: Tid>(rng: &mut Rng, c: &CurveRef, ids: &BTreeSet<Id>, extreme: bool) -> BTreeMap<Id, Nat> {
    let mut m: BTreeMap<Id, Nat> = ids
        .iter()
        .map(|i| {
            let v = match (extreme, rng.next_u32() % 3) {
                (true, 0) => Nat::one(),
                (true, 1) => c.n.sub(&Nat::one()),
                _ => Nat::random_below(rng, &c.n),
            };
            (i.clone(), v)
        })
        .collect();
    let last = ids.iter().nth(rng.next_u32() as usize % ids.len()).unwrap().clone();
    let rest = m.iter().filter(|(i, _)| **i != last).fold(Nat::zero(), |a, (_, v)| a.add(v).rem(&c.n));
    m.insert(last, c.n.sub(&rest).rem(&c.n));
    m
}

fn history<S: SchemeParams, Id: Tid>(ctx: &Ctx, label: &str, k: u64) {
    let c = curve_of::<S>();
    let mut rng = rng_for(label, k);
    let n = 1 + (k % 6) as usize;
    let ids = Id::many(&mut rng, n);
    let secret = match k % 9 {
        0 => Nat::one(),
        1 => c.n.sub(&Nat::one()),
        2 => c.n.shr(1),
        _ => Nat::random_below(&mut rng, &c.n.sub(&Nat::one())).add(&Nat::one()),
    };
    let sk = sk_of::<S>(&c, &secret);
    let dealer = k % 4 != 3;
    let updates = (k % 7) as usize * if k % 49 == 48 { 10 } else { 1 };
    ctx.case(&format!("{} history", label), &|| format!("{:?}, key {}, {} updates", ids, secret.hex(), updates), || {
        let mut shares = KeyShare::<S, Id>::new_centralized(&mut rng, &ids, dealer.then_some(&sk));
        let (sum, key) = check_key_shares::<S, Id>(&c, &ids, &shares)?;
        if dealer && sum != secret {
            return Err("the shares do not sum to the dealt secret".into());
        }
        if n > 1 && c.len == 32 {
            let distinct: BTreeSet<Vec<u8>> = shares.values().map(|s| ks_view(s).secret.to_be()).collect();
            if distinct.len() != n || distinct.contains(&sum.to_be()) {
                return Err("shares repeat each other or the secret".into());
            }
            let again = KeyShare::<S, Id>::new_centralized(&mut rng, &ids, Some(&sk));
            if again.iter().any(|(i, s)| ks_view(s).secret == ks_view(&shares[i]).secret) {
                return Err("two dealings give the same share".into());
            }
        }
        for u in 0..updates {
            let d = zero_sum(&mut rng, &c, &ids, u % 3 == 2);
            let before: BTreeMap<Id, KsView<Id>> = shares.iter().map(|(i, s)| (i.clone(), ks_view(s))).collect();
            let mut next = BTreeMap::new();
            for (i, s) in &shares {
                next.insert(i.clone(), s.clone().update(change::<S, Id>(&c, i, &d)).map_err(|e| format!("update {}: {}", u, e))?);
            }
            let (s2, k2) = check_key_shares::<S, Id>(&c, &ids, &next).map_err(|e| format!("after update {}: {}", u, e))?;
            if k2 != key || s2 != sum {
                return Err(format!("update {} changed the group key", u));
            }
            for (i, s) in &next {
                let v = ks_view(s);
                let want = before[i].secret.add(&d[i]).rem(&c.n);
                if v.secret != want {
                    return Err(format!("update {} gives {:?} the share {} instead of {}", u, i, v.secret.hex(), want.hex()));
                }
                // (all parties hold the same public shares here)
                for (j, p) in v.public.iter().filter(|_| Some(i) == next.keys().next()) {
                    if p != &c.add(&before[i].public[j], &c.mul(&d[j], &c.gen())) {
                        return Err(format!("update {} gives a wrong public share of {:?}", u, j));
                    }
                }
            }
            ctx.measure("updates applied", 1);
            shares = next;
        }
        // Shares survive serialization.
        for s in shares.values() {
            let j: KeyShare<S, Id> = from_json(&to_json(s))?;
            let b: KeyShare<S, Id> = from_cbor(&to_cbor(s))?;
            if ks_view(&j) != ks_view(s) || ks_view(&b) != ks_view(s) {
                return Err("a key share changes when serialized and read back".into());
            }
        }
        ctx.distinct(&k.to_le_bytes());
        ctx.sample(label, format!("{} parties, {} updates", n, updates));
        Ok(())
    });
}

/// Updates that do not belong to the share must be refused.
fn mismatched<S: SchemeParams, Id: Tid>(ctx: &Ctx, label: &str, k: u64) {
    let c = curve_of::<S>();
    let mut rng = rng_for(label, k);
    let n = 1 + (k % 5) as usize;
    let ids = Id::many(&mut rng, n);
    let shares = KeyShare::<S, Id>::new_centralized(&mut rng, &ids, None);
    let me = ids.iter().nth(rng.next_u32() as usize % n).unwrap().clone();
    let d = zero_sum(&mut rng, &c, &ids, false);
    let stranger = loop {
        let s = Id::some(&mut rng);
        if !ids.contains(&s) {
            break s;
        }
    };
    let share = &shares[&me];
    let good = share.clone().update(change::<S, Id>(&c, &me, &d));
    ctx.case("mismatch: matching update as control", &|| format!("{:?}", ids), || good.map(|_| ()).map_err(|e| e.to_string()));
    let refuse = |what: &str, ch: KeyShareChange<S, Id>| {
        ctx.case(&format!("mismatch: {}", what), &|| format!("{:?} of {:?}, stranger {:?}", me, ids, stranger), || match share.clone().update(ch) {
            Err(_) => Ok(()),
            Ok(r) => Err(format!("accepted, giving {:?}", ks_view(&r))),
        })
    };
    if n > 1 {
        let other = ids.iter().find(|i| **i != me).unwrap();
        refuse("another party's update", change::<S, Id>(&c, other, &d));
        let mut less = d.clone();
        less.remove(other);
        refuse("an update without one party", change::<S, Id>(&c, &me, &less));
        let mut swapped = d.clone();
        let v = swapped.remove(other).unwrap();
        swapped.insert(stranger.clone(), v);
        refuse("an update with one party replaced", change::<S, Id>(&c, &me, &swapped));
    }
    refuse("a stranger's update", change::<S, Id>(&c, &stranger, &d));
    let mut more = d.clone();
    more.insert(stranger.clone(), Nat::random_below(&mut rng, &c.n));
    refuse("an update with one more party", change::<S, Id>(&c, &me, &more));
    refuse("an empty update", change::<S, Id>(&c, &me, &BTreeMap::new()));
}

fn aux<S: SchemeParams, Id: Tid>(ctx: &Ctx, label: &str, k: u64, quick: bool, moduli: &Mutex<BTreeSet<Vec<u8>>>) {
    let c = curve_of::<S>();
    let mut rng = rng_for(label, k);
    let n = 1 + (k % 5) as usize;
    let ids = Id::many(&mut rng, n);
    let made = if quick { quick_aux::<S, Id>(&mut rng, &ids) } else { AuxInfo::<S, Id>::new_centralized(&mut rng, &ids) };
    let views: BTreeMap<Id, AuxView<Id>> = made.iter().map(|(i, a)| (i.clone(), aux_view(a))).collect();
    ctx.case(&format!("aux {}", label), &|| format!("{:?}", ids), || {
        let first = views.values().next().unwrap();
        if made.keys().cloned().collect::<BTreeSet<_>>() != ids {
            return Err("aux data for other parties".into());
        }
        for (i, v) in &views {
            if &v.owner != i || made[i].owner() != i {
                return Err(format!("aux data of {:?} belongs to {:?}", i, v.owner));
            }
            if v.public != first.public {
                return Err("public aux data differ".into());
            }
            if v.public.keys().cloned().collect::<BTreeSet<_>>() != ids {
                return Err("public aux data for other parties".into());
            }
            if v.p.mul(&v.q) != v.public[i].n {
                return Err(format!("the modulus of {:?} is not the product of its primes", i));
            }
            if !quick {
                let mut m = moduli.lock().unwrap();
                for x in [&v.p, &v.q, &v.public[i].rp_n] {
                    if !m.insert(x.to_be()) {
                        return Err("a prime or modulus repeats".into());
                    }
                }
            }
        }
        Ok(())
    });
    // Subsets.
    let all: Vec<Id> = ids.iter().cloned().collect();
    let me = all[rng.next_u32() as usize % n].clone();
    let full = to_json(&made[&me]);
    for mask in 0..1u32 << n {
        let sub: BTreeSet<Id> = (0..n).filter(|b| mask >> b & 1 == 1).map(|b| all[b].clone()).collect();
        ctx.case(&format!("aux subset {}", label), &|| format!("{:?} of {:?} for {:?}", sub, ids, me), || {
            match made[&me].clone().subset(&sub) {
                Err(e) if sub.contains(&me) => Err(format!("refused: {}", e)),
                Err(_) => Ok(()),
                Ok(_) if !sub.contains(&me) => Err("a subset without the owner was accepted".into()),
                Ok(s) => {
                    let j = to_json(&s);
                    let want: Vec<J> = full["public"].as_array().unwrap().iter().filter(|p| sub.contains(&from_json::<Id>(&p[0]).unwrap())).cloned().collect();
                    if j["owner"] != full["owner"] || j["secret"] != full["secret"] {
                        return Err("the owner or the secret changed".into());
                    }
                    if j["public"] != J::Array(want) {
                        return Err("the public data of the subset differ from the original's".into());
                    }
                    // the same again
                    let again = s.subset(&sub).map_err(|e| e.to_string())?;
                    if to_json(&again) != j {
                        return Err("restricting twice differs from restricting once".into());
                    }
                    Ok(())
                }
            }
        });
    }
    let stranger = loop {
        let s = Id::some(&mut rng);
        if !ids.contains(&s) {
            break s;
        }
    };
    let mut more = ids.clone();
    more.insert(stranger.clone());
    let two: BTreeSet<Id> = [me.clone(), stranger.clone()].into();
    for (what, set) in [("all and a stranger", more), ("owner and a stranger", two)] {
        ctx.case(&format!("aux superset {}", label), &|| format!("{}: {:?} of {:?}", what, set, ids), || match made[&me].clone().subset(&set) {
            Err(_) => Ok(()),
            Ok(_) => Err("a set with an unknown party was accepted".into()),
        });
    }
    // Pairing shares with aux data: the same parties and the same owner, or no signing and no associated data.
    let ks = KeyShare::<S, Id>::new_centralized(&mut rng, &ids, None);
    let msg = message::<S>(&vec![7u8; c.len]);
    let mut pair = |what: &str, k: &KeyShare<S, Id>, a: &AuxInfo<S, Id>, ok: bool, data: bool| {
        ctx.case(&format!("pairing {}: {}", label, what), &|| format!("{:?}", ids), || {
            let r = InteractiveSigning::<S, Id>::new(msg.clone(), k.clone(), a.clone()).is_ok();
            let d = InteractiveSigningAssociatedData::<S, Id>::new(msg.clone(), k.public().clone(), a.public().clone()).is_ok();
            if r != ok || d != data {
                return Err(format!("signing accepted: {}, associated data accepted: {}", r, d));
            }
            Ok(())
        })
    };
    pair("matching", &ks[&me], &made[&me], true, true);
    if n > 1 {
        let other = all.iter().find(|i| **i != me).unwrap();
        pair("another owner", &ks[&me], &made[other], false, true);
        let mut less = ids.clone();
        less.remove(other);
        let small = made[&me].clone().subset(&less).unwrap();
        pair("aux data for fewer parties", &ks[&me], &small, false, false);
        let ks2 = KeyShare::<S, Id>::new_centralized(&mut rng, &less, None);
        pair("shares for fewer parties", &ks2[&me], &made[&me], false, false);
        let mut swapped = less.clone();
        swapped.insert(stranger.clone());
        let ks3 = KeyShare::<S, Id>::new_centralized(&mut rng, &swapped, None);
        pair("as many but other parties", &ks3[&me], &made[&me], false, false);
    }
}

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C18");
        let moduli = Mutex::new(BTreeSet::new());
        ctx.par(scale(500, 10000), |k| match k % 4 {
            0 => history::<TestParams, u32>(&ctx, "tiny32, number ids", k / 2),
            1 => history::<TestParams, String>(&ctx, "tiny32, string ids", k / 2),
            2 => history::<ProductionParams112, u32>(&ctx, "secp256k1, number ids", k / 2),
            _ => history::<ProductionParams112, String>(&ctx, "secp256k1, string ids", k / 2),
        });
        ctx.par(scale(120, 3000), |k| match k % 3 {
            0 => mismatched::<TestParams, u32>(&ctx, "mismatch tiny32", k),
            1 => mismatched::<TestParams, String>(&ctx, "mismatch tiny32 string", k),
            _ => mismatched::<ProductionParams112, String>(&ctx, "mismatch secp256k1", k),
        });
        ctx.par(scale(40, 700), |k| match k % 10 {
            9 => aux::<ProductionParams112, u32>(&ctx, "secp256k1, number ids", k / 10, true, &moduli),
            x if x % 2 == 0 => aux::<TestParams, u32>(&ctx, "tiny32, number ids", k, false, &moduli),
            _ => aux::<TestParams, String>(&ctx, "tiny32, string ids", k, false, &moduli),
        });
        ctx.finish(
            "Dealt key shares through histories of zero-sum updates, every share and public share recomputed with the harness's own arithmetic after each; foreign, short, long and substituted updates must be refused; aux data restricted to every subset and compared field by field; pairing of shares with aux data",
            &["share changes are built through their serialized form", "production-size aux data for the subset cases use random primes (generating safe ones takes minutes)"],
        )
    })
}
