// C21: refresh and auxiliary-data generation keep the key, renew every share and give usable auxiliary data.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::sync::Mutex;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::protofix::*;
use super::session::*;
use super::zkfix::*;
use crate::dev::TestParams;
use crate::paillier::PaillierParams;
use crate::params::SchemeParams;
use crate::{KeyShare, KeyShareChange, ThresholdKeyShare};
use rand_core::RngCore;

struct Seen {
    /// Every prime and modulus seen so far, and where.
    moduli: BTreeMap<Vec<u8>, String>,
    /// Every secret share or change seen so far, and where.
    secrets: BTreeMap<Vec<u8>, String>,
    schedules: BTreeSet<u64>,
}

fn fresh(m: &mut BTreeMap<Vec<u8>, String>, v: &Nat, at: String) -> Result<(), String> {
    match m.insert(v.to_be(), at.clone()) {
        Some(old) => Err(format!("the same value {} appears as {} and as {}", v.hex(), old, at)),
        None => Ok(()),
    }
}

/// The auxiliary data of all parties agree, fit together, are well-formed and new.
fn check_aux<S: SchemeParams, Id: Tid>(ctx: &Ctx, seen: &Mutex<Seen>, at: &str, ids: &BTreeSet<Id>, aux: &Ax<S, Id>) -> Result<(), String> {
    let views: BTreeMap<Id, AuxView<Id>> = aux.iter().map(|(i, a)| (i.clone(), aux_view(a))).collect();
    let first = views.values().next().unwrap();
    let bits = <S::Paillier as PaillierParams>::MODULUS_BITS;
    let four = Nat::from(4);
    let three = Nat::from(3);
    for (i, v) in &views {
        if &v.owner != i || aux[i].owner() != i {
            return Err(format!("the aux data of {:?} are owned by {:?}", i, v.owner));
        }
        if v.public != first.public {
            let who: Vec<&Id> = ids.iter().filter(|k| v.public.get(k) != first.public.get(k)).collect();
            return Err(format!("{:?} and {:?} hold different public data of {:?}", i, first.owner, who));
        }
        if v.public.keys().cloned().collect::<BTreeSet<_>>() != *ids {
            return Err(format!("{:?} holds public data of {:?}", i, v.public.keys()));
        }
        let n = v.p.mul(&v.q);
        if n != v.public[i].n {
            return Err(format!("the Paillier modulus published by {:?} is not the product of its secret primes", i));
        }
        for p in [&v.p, &v.q] {
            if !p.is_prime() || p.rem(&four) != three {
                return Err(format!("a secret factor of {:?} is no prime 3 mod 4: {}", i, p.hex()));
            }
            if p.gcd(&curve_of::<S>().n) != Nat::one() {
                return Err(format!("a secret factor of {:?} shares a factor with the group order", i));
            }
        }
        if v.p == v.q {
            return Err(format!("the two primes of {:?} are equal", i));
        }
    }
    let mut s = seen.lock().unwrap();
    for (i, a) in &first.public {
        for (what, n) in [("Paillier", &a.n), ("ring-Pedersen", &a.rp_n)] {
            if n.bits() < bits - 2 || n.bits() > bits || !n.is_odd() {
                return Err(format!("the {} modulus of {:?} has {} bits", what, i, n.bits()));
            }
            fresh(&mut s.moduli, n, format!("{} {} modulus of {:?}", at, what, i))?;
            if n.is_prime() {
                return Err(format!("the {} modulus of {:?} is prime", what, i));
            }
        }
        for (what, x) in [("t", &a.t), ("s", &a.s)] {
            if x.is_zero() || *x == Nat::one() || x.gcd(&a.rp_n) != Nat::one() || x.jacobi(&a.rp_n) != 1 {
                return Err(format!("the ring-Pedersen base {} of {:?} is degenerate: {}", what, i, x.hex()));
            }
        }
        if a.t == a.s {
            return Err(format!("both ring-Pedersen bases of {:?} are equal", i));
        }
    }
    for (i, v) in &views {
        for p in [&v.p, &v.q] {
            fresh(&mut s.moduli, p, format!("{} prime of {:?}", at, i))?;
        }
    }
    ctx.measure("auxiliary key sets examined", first.public.len() as u64);
    Ok(())
}

/// Restrictions of the data to a subset keep exactly the subset's entries.
fn check_subset<S: SchemeParams, Id: Tid>(ctx: &Ctx, rng: &mut Rng, ids: &BTreeSet<Id>, aux: &Ax<S, Id>) -> Result<(), String> {
    let m = 1 + rng.next_u32() as usize % ids.len();
    let sub = pick(rng, ids, m);
    for (i, a) in aux {
        match (a.clone().subset(&sub), sub.contains(i)) {
            (Ok(r), true) => {
                let (w, v) = (aux_view(a), aux_view(&r));
                let want: BTreeMap<Id, AuxPub> = w.public.into_iter().filter(|x| sub.contains(&x.0)).collect();
                if v.public != want || v.owner != w.owner || v.p != w.p || v.q != w.q {
                    return Err(format!("the aux data of {:?} restricted to {:?} differ from the full ones", i, sub));
                }
                ctx.measure("aux restrictions compared", 1);
            }
            (Err(_), false) => {}
            (r, _) => return Err(format!("restricting the aux data of {:?} to {:?}: {}", i, sub, r.is_ok())),
        }
    }
    Ok(())
}

fn aux_sent<S: SchemeParams, Id: Tid, P: manul::protocol::Protocol<Id>>(
    out: &Outcome<Id, P>,
    part: impl Fn(&manul::protocol::ProtocolMessage) -> (serde_json::Value, serde_json::Value),
    results: &BTreeMap<Id, AuxView<Id>>,
) -> Result<u64, String> {
    let mut n = 0;
    for (i, p) in &out.parties {
        for ((round, from), m) in &p.log {
            if *round == 2 {
                let (pk, rp) = part(m);
                let got = aux_pub(&serde_json::json!({"paillier_pk": pk, "rp_params": rp}));
                if results[i].public[from] != got {
                    return Err(format!("{:?} received other aux data from {:?} than it ended with", i, from));
                }
                n += 1;
            }
        }
    }
    Ok(n)
}

fn refresh<S: SchemeParams, Id: Tid>(ctx: &Ctx, seen: &Mutex<Seen>, label: &str, idx: u64, n: usize, order: Order, rounds: usize) {
    let c = curve_of::<S>();
    let mut rng = rng_for(label, idx);
    let ids = Id::many(&mut rng, n);
    let origin = ["dealer", "key generation", "threshold"][(idx % 3) as usize];
    ctx.case(&format!("{} refresh", label), &|| format!("{} parties {:?} from {}, {} refreshes, order {:?}, case {}", n, ids, origin, rounds, order, idx), || {
        let mut shares: Ks<S, Id> = match origin {
            "dealer" => KeyShare::new_centralized(&mut rng, &ids, None),
            "key generation" => key_init::<S, Id>(&Run::new(rng.next_u64()), &ids).results()?,
            _ => {
                let t = ThresholdKeyShare::<S, Id>::new_centralized(&mut rng, &ids, n, None).map_err(|e| e.to_string())?;
                let mut m = BTreeMap::new();
                for (i, s) in t {
                    m.insert(i, s.to_key_share(&ids).map_err(|e| e.to_string())?);
                }
                m
            }
        };
        let (secret, key) = check_key_shares::<S, Id>(&c, &ids, &shares)?;
        for step in 0..rounds {
            let at = format!("{} #{} step {}", label, idx, step);
            let run = Run::new(rng.next_u64()).order(order);
            let out = key_refresh::<S, Id>(&run, &ids);
            ctx.measure("messages delivered", out.delivered);
            ctx.distinct(&out.schedule);
            seen.lock().unwrap().schedules.insert(fnv(&out.schedule));
            let mut logs: BTreeMap<Id, BTreeMap<(u8, Id), manul::protocol::ProtocolMessage>> = BTreeMap::new();
            for (i, p) in &out.parties {
                logs.insert(i.clone(), p.log.clone());
            }
            let results = out.results()?;
            if results.keys().cloned().collect::<BTreeSet<_>>() != ids {
                return Err("not every party has a result".into());
            }
            let aux: Ax<S, Id> = results.iter().map(|(i, r)| (i.clone(), r.1.clone())).collect();
            check_aux::<S, Id>(ctx, seen, &at, &ids, &aux)?;
            check_subset::<S, Id>(ctx, &mut rng, &ids, &aux)?;
            // what came over the wire is what the parties ended with
            for (i, log) in &logs {
                let v = aux_view(&aux[i]);
                for ((r, from), m) in log {
                    if *r == 2 {
                        let (eb, nb) = (json_of(&part_of(m, Part::Eb)).unwrap(), json_of(&part_of(m, Part::Nb)).unwrap());
                        let got = aux_pub(&serde_json::json!({"paillier_pk": nb["paillier_pk"], "rp_params": eb["rp_params"]}));
                        if v.public[from] != got {
                            return Err(format!("{:?} received other aux data from {:?} than it ended with", i, from));
                        }
                        ctx.measure("received aux data compared with the result", 1);
                    }
                }
            }
            let changes: BTreeMap<Id, KeyShareChange<S, Id>> = results.into_iter().map(|(i, r)| (i, r.0)).collect();
            let views: BTreeMap<Id, ChangeView<Id>> = changes.iter().map(|(i, x)| (i.clone(), change_view(x))).collect();
            let first = views.values().next().unwrap();
            let mut sum = Nat::zero();
            for (i, v) in &views {
                if &v.owner != i {
                    return Err(format!("the change of {:?} is owned by {:?}", i, v.owner));
                }
                if v.public != first.public || v.public.keys().cloned().collect::<BTreeSet<_>>() != ids {
                    return Err(format!("public changes differ between {:?} and {:?}", i, first.owner));
                }
                if c.mul(&v.secret, &c.gen()) != v.public[i] {
                    return Err(format!("the public change of {:?} does not match its secret change", i));
                }
                if n > 1 && v.secret.is_zero() {
                    return Err(format!("the share of {:?} does not change", i));
                }
                if n > 1 {
                    fresh(&mut seen.lock().unwrap().secrets, &v.secret, format!("{} change of {:?}", at, i))?;
                }
                sum = sum.add(&v.secret).rem(&c.n);
            }
            if !sum.is_zero() {
                return Err("the secret changes do not sum to zero".into());
            }
            if sum_pts(&c, first.public.values()).is_some() {
                return Err("the public changes do not sum to the identity".into());
            }
            let mut next: Ks<S, Id> = BTreeMap::new();
            for (i, s) in &shares {
                next.insert(i.clone(), s.clone().update(changes[i].clone()).map_err(|e| e.to_string())?);
            }
            let (s2, k2) = check_key_shares::<S, Id>(&c, &ids, &next)?;
            if s2 != secret || k2 != key {
                return Err("the refreshed shares belong to another key".into());
            }
            for i in &ids {
                let (a, b) = (ks_view(&shares[i]), ks_view(&next[i]));
                if n > 1 && (a.secret == b.secret || a.public[i] == b.public[i]) {
                    return Err(format!("the share of {:?} is the same after the refresh", i));
                }
                if a.secret.add(&views[i].secret).rem(&c.n) != b.secret {
                    return Err(format!("the new share of {:?} is not the old one plus the change", i));
                }
            }
            ctx.measure("refreshes applied", 1);
            shares = next;
        }
        ctx.sample(origin, format!("{} parties, {} refreshes", n, rounds));
        Ok(())
    });
}

fn aux<S: SchemeParams, Id: Tid>(ctx: &Ctx, seen: &Mutex<Seen>, label: &str, idx: u64, n: usize, order: Order) {
    let mut rng = rng_for(label, idx ^ 0xa0);
    let ids = Id::many(&mut rng, n);
    let run = Run::new(rng.next_u64()).order(order);
    ctx.case(&format!("{} aux generation", label), &|| format!("{} parties {:?}, order {:?}, seed {}", n, ids, order, run.seed), || {
        let out = aux_gen::<S, Id>(&run, &ids);
        ctx.measure("messages delivered", out.delivered);
        ctx.distinct(&out.schedule);
        seen.lock().unwrap().schedules.insert(fnv(&out.schedule));
        let mut views: BTreeMap<Id, AuxView<Id>> = BTreeMap::new();
        let mut res: Ax<S, Id> = BTreeMap::new();
        for (i, p) in &out.parties {
            let a = p.end.as_ref().unwrap().result().ok_or_else(|| format!("{:?}: {}", i, p.end.as_ref().unwrap().kind()))?;
            views.insert(i.clone(), aux_view(a));
            res.insert(i.clone(), a.clone());
        }
        if views.keys().cloned().collect::<BTreeSet<_>>() != ids {
            return Err("not every party has a result".into());
        }
        check_aux::<S, Id>(ctx, seen, &format!("{} #{}", label, idx), &ids, &res)?;
        check_subset::<S, Id>(ctx, &mut rng, &ids, &res)?;
        let k = aux_sent::<S, Id, _>(
            &out,
            |m| {
                let (eb, nb) = (json_of(&part_of(m, Part::Eb)).unwrap(), json_of(&part_of(m, Part::Nb)).unwrap());
                let get = |f: &str| if eb.get(f).is_some() { eb[f].clone() } else { nb[f].clone() };
                (get("paillier_pk"), get("rp_params"))
            },
            &views,
        )?;
        ctx.measure("received aux data compared with the result", k);
        ctx.sample("aux", format!("{} parties", n));
        Ok(())
    });
}

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C21");
        let seen = Mutex::new(Seen { moduli: BTreeMap::new(), secrets: BTreeMap::new(), schedules: BTreeSet::new() });
        ctx.par(scale(1200, 20000), |i| {
            let n = [3, 2, 4, 2, 3, 1, 5, 2][(i / 2 % 8) as usize];
            let order = order_no(i / 2);
            match i % 4 {
                0 => refresh::<TestParams, u32>(&ctx, &seen, "number ids", i, n, order, 1 + (i / 4 % 3) as usize),
                1 => aux::<TestParams, String>(&ctx, &seen, "string ids", i, n, order),
                2 => refresh::<TestParams, String>(&ctx, &seen, "string ids", i, n, order, 1 + (i / 4 % 2) as usize),
                _ => aux::<TestParams, u32>(&ctx, &seen, "number ids", i, n, order),
            }
        });
        let s = seen.lock().unwrap();
        ctx.measure("distinct delivery schedules", s.schedules.len() as u64);
        ctx.measure("distinct moduli and primes compared for freshness", s.moduli.len() as u64);
        ctx.measure("distinct changes compared for freshness", s.secrets.len() as u64);
        if s.schedules.len() < 8 {
            ctx.inconclusive("too few distinct schedules");
        }
        ctx.finish(
            "Sessions of the real KeyRefresh and AuxGen rounds for 1-5 parties under FIFO, LIFO, random and starving delivery, refreshes applied repeatedly to shares from a dealer, key generation and threshold conversion; results compared across parties, with what was sent, and with the harness's own curve and integer arithmetic",
            &["reduced-size parameters (128-bit primes): production-size safe primes take minutes each and nothing in the rounds depends on the size"],
        )
    })
}
