// C19: threshold shares: every sufficient subset gives the key, smaller ones do not, conversions keep it.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::protofix::*;
use super::session::*;
use super::util::*;
use super::zkfix::*;
use crate::curve::{Point, Scalar};
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::params::SchemeParams;
use crate::tools::sss::*;
use crate::tools::Secret;
use crate::{KeyShare, ThresholdKeyShare};
use rand_core::RngCore;


/// Coefficients of the polynomial through the points (modulo n).
fn coeffs(n: &Nat, pts: &[(Nat, Nat)]) -> Vec<Nat> {
    let sub = |a: &Nat, b: &Nat| a.add(n).sub(&b.rem(n)).rem(n);
    let mut out = vec![Nat::zero(); pts.len()];
    for (k, (x, y)) in pts.iter().enumerate() {
        // prod (X - xj)/(xk - xj)
        let mut poly = vec![Nat::one()];
        let mut den = Nat::one();
        for (j, (xj, _)) in pts.iter().enumerate() {
            if j == k {
                continue;
            }
            let mut next = vec![Nat::zero(); poly.len() + 1];
            for (d, v) in poly.iter().enumerate() {
                next[d + 1] = next[d + 1].add(v).rem(n);
                next[d] = sub(&next[d], &v.mul(xj).rem(n));
            }
            poly = next;
            den = den.mul(&sub(x, xj)).rem(n);
        }
        let f = y.mul(&den.invmod(n).unwrap()).rem(n);
        for (d, v) in poly.iter().enumerate() {
            out[d] = out[d].add(&v.mul(&f)).rem(n);
        }
    }
    out
}

/// Everything that must hold of a set of threshold shares; returns the secret.
fn check<S: SchemeParams, Id: Tid>(ctx: &Ctx, c: &CurveRef, shares: &Tk<S, Id>, t: usize, max_subsets: usize, fresh: bool) -> Result<Nat, String> {
    let ids: BTreeSet<Id> = shares.keys().cloned().collect();
    let all: Vec<Id> = ids.iter().cloned().collect();
    let views: BTreeMap<Id, TksView<Id>> = shares.iter().map(|(i, s)| (i.clone(), tks_view(s))).collect();
    let first = views.values().next().unwrap();
    let xs: BTreeSet<Vec<u8>> = first.ids.values().map(|x| x.to_be()).collect();
    if xs.len() != ids.len() || first.ids.values().any(|x| x.is_zero()) {
        return Err("share identifiers repeat or are zero".into());
    }
    for (i, v) in &views {
        if &v.owner != i || v.threshold != t as u64 || shares[i].threshold() != t {
            return Err(format!("owner or threshold of {:?} is wrong: {:?} {}", i, v.owner, v.threshold));
        }
        if v.ids != first.ids || v.public != first.public {
            return Err(format!("{:?} holds other identifiers or public shares", i));
        }
        if v.ids.keys().cloned().collect::<BTreeSet<_>>() != ids || v.public.keys().cloned().collect::<BTreeSet<_>>() != ids {
            return Err(format!("{:?} lists other parties", i));
        }
        if c.mul(&v.secret, &c.gen()) != v.public[i] {
            return Err(format!("the public share of {:?} does not match its secret share", i));
        }
        let sid = shares[i].share_id().map_err(|e| e.to_string())?;
        if scal::<S>(&to_json(sid)) != v.ids[i] {
            return Err(format!("{:?} reports another share identifier", i));
        }
    }
    let point = |i: &Id| (first.ids[i].clone(), views[i].secret.clone());
    let poly = coeffs(&c.n, &all.iter().map(point).collect::<Vec<_>>());
    // The polynomial through all the shares has degree exactly t - 1 ...
    if poly[t.min(poly.len())..].iter().any(|x| !x.is_zero()) {
        return Err("the shares lie on no polynomial of degree below the threshold".into());
    }
    if t > 1 && poly[t - 1].is_zero() {
        return Err("fewer shares than the threshold determine the key".into());
    }
    // ... and its coefficients carry independent randomness.
    if fresh && c.len == 32 {
        let d: BTreeSet<Vec<u8>> = poly[..t].iter().map(|x| x.to_be()).collect();
        if d.len() != t || poly[1..t].iter().any(|x| x.bits() < 200 || c.n.sub(x).bits() < 200) {
            return Err("the coefficients of the sharing polynomial repeat or are small".into());
        }
    }
    let secret = poly[0].clone();
    let key = c.mul(&secret, &c.gen());
    for (i, s) in shares {
        if vk_aff::<S>(&s.verifying_key().map_err(|e| e.to_string())?) != key {
            return Err(format!("the verifying key of {:?} is not that of the shared secret", i));
        }
    }
    // Sets of exactly t convert to additive shares.
    let subs = subsets(&all, t);
    let step = subs.len().div_ceil(max_subsets).max(1);
    for sub in subs.iter().step_by(step) {
        let set: BTreeSet<Id> = sub.iter().cloned().collect();
        let mut ks: Ks<S, Id> = BTreeMap::new();
        for i in sub {
            ks.insert(i.clone(), shares[i].to_key_share(&set).map_err(|e| format!("converting {:?} among {:?}: {}", i, set, e))?);
        }
        let (sum, k) = check_key_shares::<S, Id>(c, &set, &ks).map_err(|e| format!("additive shares of {:?}: {}", set, e))?;
        if sum != secret || k != key {
            return Err(format!("the additive shares of {:?} sum to another secret", set));
        }
        // And back.
        let mut back: Tk<S, Id> = BTreeMap::new();
        for (i, s) in &ks {
            back.insert(i.clone(), ThresholdKeyShare::from_key_share(s));
        }
        let bv: BTreeMap<Id, TksView<Id>> = back.iter().map(|(i, s)| (i.clone(), tks_view(s))).collect();
        let b0 = bv.values().next().unwrap();
        let pts: Vec<(Nat, Nat)> = sub.iter().map(|i| (b0.ids[i].clone(), bv[i].secret.clone())).collect();
        if bv.values().any(|v| v.ids != b0.ids || v.public != b0.public || v.threshold != t as u64) || coeffs(&c.n, &pts)[0] != secret {
            return Err(format!("additive shares of {:?} converted back share another secret", set));
        }
        for (i, s) in &back {
            if c.mul(&bv[i].secret, &c.gen()) != bv[i].public[i] {
                return Err("converted back, a public share does not match".into());
            }
            if ks_view(&s.to_key_share(&set).map_err(|e| e.to_string())?) != ks_view(&ks[i]) {
                return Err(format!("converting the share of {:?} there and back changes it", i));
            }
        }
        ctx.measure("threshold-sized subsets converted", 1);
    }
    // The library's own interpolation, over every kind of superset and order.
    for size in t..=all.len() {
        let subs = subsets(&all, size);
        let step = subs.len().div_ceil(max_subsets).max(1);
        for sub in subs.iter().step_by(step) {
            let sid = |i: &Id| from_json::<ShareId<S>>(&sc_json::<S>(c, &first.ids[i])).unwrap();
            let pairs: BTreeMap<ShareId<S>, Secret<Scalar<S>>> = sub.iter().map(|i| (sid(i), Secret::init_with(|| mk_sc::<S>(c, &views[i].secret)))).collect();
            if sc::<S>(shamir_join_scalars(pairs).expose_secret()) != secret {
                return Err(format!("joining the secrets of {:?} gives another secret", sub));
            }
            let pairs: BTreeMap<ShareId<S>, Point<S>> =
                sub.iter().map(|i| (sid(i), mk_sc::<S>(c, &views[i].secret).mul_by_generator())).collect();
            if aff::<S>(&shamir_join_points(&pairs)) != key {
                return Err(format!("joining the public shares of {:?} gives another key", sub));
            }
            ctx.measure("supersets joined", 1);
        }
    }
    Ok(secret)
}

fn dealt<S: SchemeParams, Id: Tid>(ctx: &Ctx, label: &str, k: u64, n: usize, t: usize) {
    let c = curve_of::<S>();
    let mut rng = rng_for(label, k);
    let ids = Id::many(&mut rng, n);
    let secret = match k % 7 {
        0 => Nat::one(),
        1 => c.n.sub(&Nat::one()),
        _ => Nat::random_below(&mut rng, &c.n.sub(&Nat::one())).add(&Nat::one()),
    };
    let sk = sk_of::<S>(&c, &secret);
    let dealer = k % 5 != 4;
    ctx.case(&format!("{} dealt", label), &|| format!("{:?}, threshold {}, key {}", ids, t, secret.hex()), || {
        let shares = ThresholdKeyShare::<S, Id>::new_centralized(&mut rng, &ids, t, dealer.then_some(&sk)).map_err(|e| e.to_string())?;
        let got = check::<S, Id>(ctx, &c, &shares, t, if thorough() { 40 } else { 16 }, true)?;
        if dealer && got != secret {
            return Err("another secret was shared".into());
        }
        // Sharing again must be independent: the first t-1 shares tell nothing.
        if t > 1 && c.len == 32 {
            let again = ThresholdKeyShare::<S, Id>::new_centralized(&mut rng, &ids, t, Some(&sk)).map_err(|e| e.to_string())?;
            if again.iter().any(|(i, s)| tks_view(s).secret == tks_view(&shares[i]).secret) {
                return Err("two sharings of a key give the same share".into());
            }
        }
        for s in shares.values() {
            let j: ThresholdKeyShare<S, Id> = from_json(&to_json(s))?;
            let b: ThresholdKeyShare<S, Id> = from_cbor(&to_cbor(s))?;
            if tks_view(&j) != tks_view(s) || tks_view(&b) != tks_view(s) {
                return Err("a share changes when serialized and read back".into());
            }
        }
        // Unknown holders are refused.
        if t > 1 {
            let stranger = loop {
                let s = Id::some(&mut rng);
                if !ids.contains(&s) {
                    break s;
                }
            };
            let me = ids.iter().next().unwrap();
            let mut set = pick(&mut rng, &ids.iter().filter(|i| *i != me).cloned().collect(), t - 2);
            set.insert(me.clone());
            set.insert(stranger);
            if shares[me].to_key_share(&set).is_ok() {
                return Err("a conversion with an unknown holder was accepted".into());
            }
        }
        if ThresholdKeyShare::<S, Id>::new_centralized(&mut rng, &ids, n + 1, Some(&sk)).is_ok() {
            return Err("a threshold above the number of holders was accepted".into());
        }
        ctx.distinct(&[&k.to_le_bytes()[..], &[n as u8, t as u8], label.as_bytes()].concat());
        ctx.sample(label, format!("{} of {}", t, n));
        Ok(())
    });
}

/// Additive shares (dealt, or from key generation) as n-of-n threshold shares.
fn converted<S: SchemeParams, Id: Tid>(ctx: &Ctx, label: &str, k: u64) {
    let c = curve_of::<S>();
    let mut rng = rng_for(label, k);
    let n = 1 + (k % 7) as usize;
    let ids = Id::many(&mut rng, n);
    ctx.case(&format!("{} converted from additive shares", label), &|| format!("{:?}", ids), || {
        let ks = if k % 2 == 0 {
            KeyShare::<S, Id>::new_centralized(&mut rng, &ids, None)
        } else {
            key_init::<S, Id>(&Run::new(rng.next_u64()), &ids).results()?
        };
        let (secret, _) = check_key_shares::<S, Id>(&c, &ids, &ks)?;
        let shares: Tk<S, Id> = ks.iter().map(|(i, s)| (i.clone(), ThresholdKeyShare::from_key_share(s))).collect();
        if check::<S, Id>(ctx, &c, &shares, n, 10, false)? != secret {
            return Err("the conversion changed the secret".into());
        }
        for (i, s) in &shares {
            if ks_view(&s.to_key_share(&ids).map_err(|e| e.to_string())?) != ks_view(&ks[i]) {
                return Err("converting to threshold shares and back changes them".into());
            }
        }
        Ok(())
    });
}

/// The building blocks at arbitrary evaluation points.
fn blocks<S: SchemeParams>(ctx: &Ctx, label: &str, k: u64) {
    let c = curve_of::<S>();
    let mut rng = rng_for(label, k);
    let n = 1 + (k % 8) as usize;
    let t = 1 + rng.next_u32() as usize % n;
    let mut set: BTreeSet<Vec<u8>> = BTreeSet::new();
    while set.len() < n {
        let x = match rng.next_u32() % 4 {
            0 => Nat::from(1 + rng.next_u64() % 20),
            1 => c.n.sub(&Nat::from(1 + rng.next_u64() % 20)),
            _ => Nat::random_below(&mut rng, &c.n.sub(&Nat::one())).add(&Nat::one()),
        };
        set.insert(x.to_be_padded(40));
    }
    let xs: Vec<Nat> = set.iter().map(|b| Nat::from_be(b)).collect();
    let ids: Vec<ShareId<S>> = xs.iter().map(|x| from_json(&sc_json::<S>(&c, x)).unwrap()).collect();
    ctx.case(&format!("{} points", label), &|| format!("threshold {} at {:?}", t, xs.iter().map(|x| x.hex()).collect::<Vec<_>>()), || {
        for (x, id) in xs.iter().zip(&ids) {
            let got = sc::<S>(&interpolation_coeff(ids.iter(), id));
            if got != lagrange(&c.n, &xs, x) {
                return Err(format!("the interpolation coefficient at {} is {}", x.hex(), got.hex()));
            }
        }
        let secret = Nat::random_below(&mut rng, &c.n);
        let poly = Polynomial::<S>::random(&mut rng, Secret::init_with(|| mk_sc::<S>(&c, &secret)), t);
        let public = poly.public();
        let pts: Vec<(Nat, Nat)> = ids.iter().zip(&xs).map(|(id, x)| (x.clone(), sc::<S>(poly.evaluate(id).expose_secret()))).collect();
        let cs = coeffs(&c.n, &pts);
        if cs[0] != secret || cs[t..].iter().any(|x| !x.is_zero()) || (t > 1 && cs[t - 1].is_zero()) {
            return Err("the polynomial is not one of the threshold's degree with the secret at 0".into());
        }
        if aff::<S>(public.coeff0().map_err(|e| e.to_string())?) != c.mul(&secret, &c.gen()) {
            return Err("the public polynomial has another constant".into());
        }
        let j = to_json(&public);
        let wire: Vec<Aff> = j.as_array().unwrap().iter().map(|p| point::<S>(p)).collect();
        if wire != cs[..t].iter().map(|x| c.mul(x, &c.gen())).collect::<Vec<_>>() {
            return Err("the public coefficients do not match the secret ones".into());
        }
        for (id, (_, y)) in ids.iter().zip(&pts) {
            if aff::<S>(&public.evaluate(id)) != c.mul(y, &c.gen()) {
                return Err("the public polynomial evaluates to another point".into());
            }
        }
        let sp = shamir_split::<S>(&mut rng, Secret::init_with(|| mk_sc::<S>(&c, &secret)), t, &ids);
        let pts: Vec<(Nat, Nat)> = ids.iter().zip(&xs).map(|(id, x)| (x.clone(), sc::<S>(sp[id].expose_secret()))).collect();
        let cs = coeffs(&c.n, &pts);
        if sp.len() != n || cs[0] != secret || cs[t..].iter().any(|x| !x.is_zero()) {
            return Err("a split secret lies on no polynomial of the threshold's degree".into());
        }
        Ok(())
    });
}

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C19");
        // every (n, t) up to 7, several times; larger ones sampled
        let mut grid = vec![];
        for n in 1..=7usize {
            for t in 1..=n {
                grid.push((n, t));
            }
        }
        grid.extend([(9, 5), (12, 3), (12, 11), (16, 2)]);
        ctx.par(grid.len() as u64 * scale(4, 120), |k| {
            let (n, t) = grid[(k as usize) % grid.len()];
            match (k / grid.len() as u64) % 4 {
                0 => dealt::<TestParams, u32>(&ctx, "tiny32, number ids", k, n, t),
                1 => dealt::<ProductionParams112, String>(&ctx, "secp256k1, string ids", k, n, t),
                2 => dealt::<ProductionParams112, u32>(&ctx, "secp256k1, number ids", k, n, t),
                _ => dealt::<TestParams, String>(&ctx, "tiny32, string ids", k, n, t),
            }
        });
        ctx.par(scale(80, 1500), |k| match k % 3 {
            0 => converted::<TestParams, u32>(&ctx, "tiny32", k),
            1 => converted::<ProductionParams112, u32>(&ctx, "secp256k1", k),
            _ => converted::<ProductionParams112, String>(&ctx, "secp256k1, string ids", k),
        });
        ctx.par(scale(200, 4000), |k| if k % 2 == 0 { blocks::<TestParams>(&ctx, "tiny32", k) } else { blocks::<ProductionParams112>(&ctx, "secp256k1", k) });
        ctx.finish(
            "Every n up to 7 and every threshold (larger sampled), all or up to 40 subsets of each size: conversion, joining and interpolation against the harness's own Lagrange and polynomial arithmetic; the degree and independence of the sharing polynomial decide that smaller sets do not determine the key",
            &["conversion to additive shares is defined for exactly as many holders as the threshold"],
        )
    })
}
