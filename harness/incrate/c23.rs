// C23: resharing moves the same key to new holders and thresholds.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::sync::Mutex;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::protofix::*;
use super::session::*;
use super::zkfix::*;
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::params::SchemeParams;
use crate::{KeyShare, ThresholdKeyShare};
use rand_core::RngCore;

/// All checks on a set of threshold shares at once; the secret.
fn check<S: SchemeParams, Id: Tid>(ctx: &Ctx, c: &CurveRef, shares: &Tk<S, Id>, t: usize) -> Result<Nat, String> {
    let ids: BTreeSet<Id> = shares.keys().cloned().collect();
    let all: Vec<Id> = ids.iter().cloned().collect();
    let views: BTreeMap<Id, TksView<Id>> = shares.iter().map(|(i, s)| (i.clone(), tks_view(s))).collect();
    let first = views.values().next().unwrap();
    for (i, v) in &views {
        if &v.owner != i || v.threshold != t as u64 {
            return Err(format!("the new share of {:?} has owner {:?} and threshold {}", i, v.owner, v.threshold));
        }
        if v.ids != first.ids || v.public != first.public {
            return Err(format!("{:?} and {:?} hold different identifiers or public shares", i, first.owner));
        }
        if v.ids.keys().cloned().collect::<BTreeSet<_>>() != ids || v.public.keys().cloned().collect::<BTreeSet<_>>() != ids {
            return Err(format!("{:?} lists holders other than the new ones", i));
        }
        if c.mul(&v.secret, &c.gen()) != v.public[i] {
            return Err(format!("the new public share of {:?} does not match its secret share", i));
        }
    }
    let mut secret: Option<Nat> = None;
    for sub in subsets(&all, t) {
        let xs: Vec<Nat> = sub.iter().map(|i| first.ids[i].clone()).collect();
        let s = sub.iter().fold(Nat::zero(), |a, i| a.add(&lagrange(&c.n, &xs, &first.ids[i]).mul(&views[i].secret)).rem(&c.n));
        if *secret.get_or_insert(s.clone()) != s {
            return Err(format!("the shares of {:?} reconstruct another secret", sub));
        }
        ctx.measure("new-threshold subsets reconstructed", 1);
    }
    let secret = secret.unwrap();
    if t > 1 && c.len == 32 {
        // one share fewer gives something else
        for sub in subsets(&all, t - 1) {
            let xs: Vec<Nat> = sub.iter().map(|i| first.ids[i].clone()).collect();
            let s = sub.iter().fold(Nat::zero(), |a, i| a.add(&lagrange(&c.n, &xs, &first.ids[i]).mul(&views[i].secret)).rem(&c.n));
            if s == secret {
                return Err(format!("fewer shares than the threshold give the key: {:?}", sub));
            }
        }
    }
    let key = c.mul(&secret, &c.gen());
    for (i, s) in shares {
        if vk_aff::<S>(&s.verifying_key().map_err(|e| e.to_string())?) != key {
            return Err(format!("the verifying key of {:?} is another one", i));
        }
    }
    for sub in subsets(&all, t).into_iter().take(6) {
        let set: BTreeSet<Id> = sub.iter().cloned().collect();
        let mut ks: Ks<S, Id> = BTreeMap::new();
        for i in &set {
            ks.insert(i.clone(), shares[i].to_key_share(&set).map_err(|e| e.to_string())?);
        }
        if check_key_shares::<S, Id>(c, &set, &ks)?.0 != secret {
            return Err("additive shares sum to another secret".into());
        }
    }
    Ok(secret)
}

fn one<S: SchemeParams, Id: Tid>(ctx: &Ctx, schedules: &Mutex<BTreeSet<u64>>, label: &str, k: u64) {
    let c = curve_of::<S>();
    let mut rng = rng_for(label, k);
    let n = 1 + (rng.next_u32() % 6) as usize;
    let t = 1 + rng.next_u32() as usize % n;
    let holders = Id::many(&mut rng, n);
    let secret = Nat::random_below(&mut rng, &c.n.sub(&Nat::one())).add(&Nat::one());
    let sk = sk_of::<S>(&c, &secret);
    let steps = 1 + (k % 3) as usize;
    let mut trail: Vec<String> = Vec::new();
    let kind = ["disjoint", "overlapping", "equal", "subset", "superset"][(k % 5) as usize];
    let trail_ref = std::cell::RefCell::new(&mut trail);
    ctx.case(&format!("{} {}", label, kind), &|| format!("{} of {:?}, then {:?}", t, holders, trail_ref.borrow()), || {
        let mut shares: Tk<S, Id> = if k % 4 == 3 {
            KeyShare::<S, Id>::new_centralized(&mut rng, &holders, Some(&sk)).iter().map(|(i, s)| (i.clone(), ThresholdKeyShare::from_key_share(s))).collect()
        } else {
            ThresholdKeyShare::<S, Id>::new_centralized(&mut rng, &holders, t, Some(&sk)).map_err(|e| e.to_string())?
        };
        let mut ids_ever: BTreeSet<Id> = holders.clone();
        for step in 0..steps {
            let t0 = shares.values().next().unwrap().threshold();
            let have: BTreeSet<Id> = shares.keys().cloned().collect();
            // some sufficient part of the holders takes part
            let m = t0 + rng.next_u32() as usize % (have.len() - t0 + 1);
            let part = pick(&mut rng, &have, m);
            let fresh = |rng: &mut Rng, n: usize, avoid: &BTreeSet<Id>| -> BTreeSet<Id> {
                let mut s = BTreeSet::new();
                while s.len() < n {
                    let x = Id::some(rng);
                    if !avoid.contains(&x) {
                        s.insert(x);
                    }
                }
                s
            };
            let new: BTreeSet<Id> = match kind {
                "disjoint" => {
                    let n = 1 + rng.next_u32() as usize % 5;
                    fresh(&mut rng, n, &have)
                }
                "equal" => part.clone(),
                "subset" => {
                    let n = 1 + rng.next_u32() as usize % part.len();
                    pick(&mut rng, &part, n)
                }
                "superset" => {
                    let n = 1 + rng.next_u32() as usize % 3;
                    fresh(&mut rng, n, &have).union(&part).cloned().collect()
                }
                _ => {
                    // holders which do not take part may also become new ones
                    let n = rng.next_u32() as usize % 3;
                    let m = 1 + rng.next_u32() as usize % have.len();
                    fresh(&mut rng, n, &have).union(&pick(&mut rng, &have, m)).cloned().collect()
                }
            };
            let t1 = 1 + rng.next_u32() as usize % new.len();
            ids_ever.extend(new.iter().cloned());
            let mut run = Run::new(rng.next_u64());
            run.order = order_no(k + step as u64);
            trail_ref.borrow_mut().push(format!("{:?} of the {} pass to {} of {:?} (order {:?}, seed {})", part, t0, t1, new, run.order, run.seed));
            let old: Tk<S, Id> = shares.iter().filter(|(i, _)| part.contains(i)).map(|(i, s)| (i.clone(), s.clone())).collect();
            let out = reshare::<S, Id>(&run, &old, &new, t1);
            ctx.measure("messages delivered", out.delivered);
            schedules.lock().unwrap().insert(fnv(&out.schedule));
            ctx.distinct(&out.schedule);
            let mut next: Tk<S, Id> = BTreeMap::new();
            for (i, r) in out.results()? {
                match (r, new.contains(&i)) {
                    (Some(s), true) => {
                        next.insert(i, s);
                    }
                    (None, false) => ctx.measure("old-only holders without a share", 1),
                    (Some(_), false) => return Err(format!("{:?}, no new holder, obtained a share", i)),
                    (None, true) => return Err(format!("{:?}, a new holder, obtained no share", i)),
                }
            }
            if next.keys().cloned().collect::<BTreeSet<_>>() != new {
                return Err("not every new holder has a share".into());
            }
            if check::<S, Id>(ctx, &c, &next, t1)? != secret {
                return Err("resharing changed the key".into());
            }
            if c.len == 32 {
                for (i, s) in &next {
                    let v = tks_view(s).secret;
                    if shares.values().any(|o| tks_view(o).secret == v && t1 > 1) {
                        return Err(format!("the new share of {:?} is an old share", i));
                    }
                }
            }
            ctx.measure("resharing sessions", 1);
            shares = next;
        }
        ctx.sample(kind, format!("{} steps, ends with {} holders", steps, shares.len()));
        Ok(())
    });
}

/// Entry data that cannot work must be refused before anything is sent.
fn refused(ctx: &Ctx) {
    use manul::protocol::EntryPoint;
    for k in 0..scale(10, 100) {
        let mut rng = rng_for("refused", k);
        let ids = <u32 as Tid>::many(&mut rng, 3);
        ctx.case("neither old nor new holder", &|| format!("{:?}", ids), || {
            let e = crate::KeyResharing::<TestParams, u32>::new(None, None, ids.clone(), 2);
            match e.make_round(&mut rng_for("r", k), b"", ids.iter().next().unwrap()) {
                Err(_) => Ok(()),
                Ok(_) => Err("a party with neither role started".into()),
            }
        });
    }
}

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C23");
        let schedules = Mutex::new(BTreeSet::new());
        refused(&ctx);
        ctx.par(scale(800, 14000), |k| match (k / 5) % 4 {
            0 => one::<TestParams, u32>(&ctx, &schedules, "tiny32, number ids", k),
            1 => one::<ProductionParams112, String>(&ctx, &schedules, "secp256k1, string ids", k),
            2 => one::<TestParams, String>(&ctx, &schedules, "tiny32, string ids", k),
            _ => one::<ProductionParams112, u32>(&ctx, &schedules, "secp256k1, number ids", k),
        });
        ctx.measure("distinct delivery schedules", schedules.lock().unwrap().len() as u64);
        ctx.finish(
            "Chains of one to three honest resharing sessions over random holder sets (disjoint, overlapping, equal, subset, superset), thresholds, participating subsets and delivery orders; every new-threshold subset is interpolated with the harness's own arithmetic",
            &["old holders taking part are those listed in every new holder's input (at least the old threshold)"],
        )
    })
}
