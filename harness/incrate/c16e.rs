// C16, second part: key shares, aux data and the state that the protocols keep between their rounds. A session runs
// twice with the same randomness: from the first run the secrets are computed (key shares, nonces, masks: everything that
// the Paillier keys of the parties open), in the second one the round state is printed before every delivery and the
// released memory is searched.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::c16::*;
use super::common::*;
use super::ecref::*;
use super::protofix::*;
use super::session::*;
use super::util::*;
use super::zkfix::*;
use crate::dev::TestParams;
use crate::entities::*;
use crate::k256::ProductionParams112;
use crate::params::*;
use crate::protocols::*;
use crypto_bigint::Bounded;
use serde_json::Value as J;

type T = TestParams;
type K = ProductionParams112;

fn scalar_words(w: &mut Words, c: &CurveRef, name: &str, v: &Nat) {
    w.nat(name, v);
    w.nat(&format!("-{}", name), &c.n.sub(&v.rem(&c.n)));
}
/// The coefficients of the polynomial through the given points.
fn coefficients(n: &Nat, pts: &[(Nat, Nat)]) -> Vec<Nat> {
    let mut out = vec![Nat::zero(); pts.len()];
    for (i, (xi, yi)) in pts.iter().enumerate() {
        // prod_{j != i} (x - xj) / (xi - xj)
        let (mut p, mut den) = (vec![Nat::one()], Nat::one());
        for (j, (xj, _)) in pts.iter().enumerate() {
            if i != j {
                let mut q = vec![Nat::zero(); p.len() + 1];
                for (k, a) in p.iter().enumerate() {
                    q[k + 1] = q[k + 1].add(a).rem(n);
                    q[k] = q[k].add(&n.sub(&a.mul(xj).rem(n))).rem(n);
                }
                p = q;
                den = den.mul(&xi.add(n).sub(xj)).rem(n);
            }
        }
        let f = yi.mul(&den.invmod(n).unwrap()).rem(n);
        for (k, a) in p.iter().enumerate() {
            out[k] = out[k].add(&a.mul(&f)).rem(n);
        }
    }
    out
}

fn shares(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c16/shares", idx);
    let cu = &CurveRef::secp256k1();
    let n = 2 + idx as usize % 4;
    let t = 1 + idx as usize / 4 % n;
    let ids = u32::many(rng, n);
    let d = Nat::random_below(rng, &cu.n);
    let sk = sk_of::<K>(cu, &d);
    let mut base = Words::default();
    scalar_words(&mut base, cu, "signing key", &d);

    let ks_words = |w: &mut Words, m: &Ks<K, u32>| m.values().for_each(|k| scalar_words(w, cu, "share", &ks_view(k).secret));
    let tk_words = |w: &mut Words, m: &Tk<K, u32>| {
        let v: Vec<_> = m.values().map(tks_view).collect();
        v.iter().for_each(|k| scalar_words(w, cu, "threshold share", &k.secret));
        let pts: Vec<(Nat, Nat)> = v.iter().take(t).map(|k| (k.ids[&k.owner].clone(), k.secret.clone())).collect();
        coefficients(&cu.n, &pts).iter().for_each(|x| scalar_words(w, cu, "coefficient", x));
    };

    mem(c, "dealing", &base, |w| {
        let m = KeyShare::<K, u32>::new_centralized(rng, &ids, Some(&sk));
        unwatched(|| ks_words(w, &m));
    });
    mem(c, "dealing with a threshold", &base, |w| {
        if let Ok(m) = ThresholdKeyShare::<K, u32>::new_centralized(rng, &ids, t, Some(&sk)) {
            unwatched(|| tk_words(w, &m));
        }
    });

    let ks = KeyShare::<K, u32>::new_centralized(rng, &ids, Some(&sk));
    let mut w = base.clone();
    ks_words(&mut w, &ks);
    let Ok(tk) = ThresholdKeyShare::<K, u32>::new_centralized(rng, &ids, t, Some(&sk)) else {
        c.inconclusive("no threshold shares");
        return;
    };
    tk_words(&mut w, &tk);
    let w = &w;
    let me = *ids.iter().next().unwrap();
    show!(c, w, "KeyShare", ks[&me]);
    show!(c, w, "KeyShare set", ks);
    show!(c, w, "ThresholdKeyShare", tk[&me]);
    show!(c, w, "ThresholdKeyShare set", tk);

    // a change: shares of zero
    let mut deltas: Vec<Nat> = (1..n).map(|_| Nat::random_below(rng, &cu.n)).collect();
    let sum = deltas.iter().fold(Nat::zero(), |a, x| a.add(x).rem(&cu.n));
    deltas.push(cu.n.sub(&sum).rem(&cu.n));
    let public: Vec<J> = ids.iter().zip(&deltas).map(|(i, x)| serde_json::json!([i, to_json(&mk_sc::<K>(cu, x).mul_by_generator())])).collect();
    let j = serde_json::json!({"owner": me, "secret_share_change": to_json(&mk_sc::<K>(cu, &deltas[0])), "public_share_changes": public});
    match from_json::<KeyShareChange<K, u32>>(&j) {
        Ok(change) => {
            let mut w = w.clone();
            scalar_words(&mut w, cu, "change", &deltas[0]);
            let w = &w;
            show!(c, w, "KeyShareChange", change);
            mem(c, "update", w, |w| {
                let (k, d) = (ks[&me].clone(), change.clone());
                if let Ok(k) = k.update(d) {
                    unwatched(|| scalar_words(w, cu, "updated share", &ks_view(&k).secret));
                    unwatched(|| show!(c, w, "updated KeyShare", k));
                }
            });
            mem(c, "refused update", w, |_| {
                let other = ids.iter().last().unwrap();
                drop(ks[other].clone().update(change.clone()));
            });
        }
        Err(e) => c.inconclusive(format!("no change built: {}", e)),
    }
    mem(c, "share clone", w, |_| drop((ks.clone(), vec![tk.clone()], Box::new(ks[&me].clone()))));
    mem(c, "share serialize", w, |_| drop((serde_json::to_value(&ks[&me]), serde_json::to_value(&tk[&me]))));
    mem(c, "to_key_share", w, |w| {
        let mut chosen: BTreeSet<u32> = BTreeSet::from([me]);
        unwatched(|| ids.iter().rev().take(t).for_each(|i| drop(chosen.insert(*i))));
        while chosen.len() > t {
            let x = *chosen.iter().find(|i| **i != me).unwrap();
            chosen.remove(&x);
        }
        if let Ok(k) = tk[&me].to_key_share(&chosen) {
            unwatched(|| scalar_words(w, cu, "converted share", &ks_view(&k).secret));
            unwatched(|| show!(c, w, "converted KeyShare", k));
        }
    });
    mem(c, "from_key_share", w, |w| {
        let k = ThresholdKeyShare::from_key_share(&ks[&me]);
        unwatched(|| scalar_words(w, cu, "converted share", &tks_view(&k).secret));
        unwatched(|| show!(c, w, "converted ThresholdKeyShare", k));
    });
    let path: bip32::DerivationPath = format!("m/{}/{}/7", idx % 9, idx % 1000).parse().unwrap();
    mem(c, "derive_bip32", w, |w| {
        if let Ok(k) = tk[&me].derive_bip32(&path) {
            unwatched(|| scalar_words(w, cu, "derived share", &tks_view(&k).secret));
            unwatched(|| show!(c, w, "derived ThresholdKeyShare", k));
        }
    });
}

fn aux(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c16/aux", idx);
    let ids = u32::many(rng, 2 + idx as usize % 2);
    let ax = quick_aux::<T, u32>(rng, &ids);
    let mut w = Words::default();
    for a in ax.values() {
        let v = aux_view(a);
        let k = key_words_of::<T>(&v.p, &v.q);
        w.0.extend(k.0);
        w.1.extend(k.1);
    }
    let w = &w;
    let me = *ids.iter().next().unwrap();
    let a = &ax[&me];
    show!(c, w, "AuxInfo", ax[&me]);
    show!(c, w, "AuxInfo set", ax);
    show!(c, w, "AuxInfoPrecomputed", a.clone().into_precomputed());
    mem(c, "aux clone", w, |_| drop((ax.clone(), Box::new(a.clone()))));
    mem(c, "aux serialize", w, |_| drop(serde_json::to_value(a)));
    mem(c, "aux subset", w, |_| drop(a.clone().subset(&ids)));
    mem(c, "refused aux subset", w, |_| drop(a.clone().subset(&BTreeSet::from([me, 77, 78]))));
    mem(c, "aux precompute", w, |_| drop(a.clone().into_precomputed()));
}

/// Runs a session twice; `learn` computes its secrets from the outcome of the first run.
fn session<P>(c: &Ctx, name: &str, make: &dyn Fn(&Run<u32, P>) -> Outcome<u32, P>, seed: u64, learn: &dyn Fn(&Outcome<u32, P>) -> Result<(Words, Vec<Nat>), String>)
where
    P: manul::protocol::Protocol<u32>,
{
    let first = match make_quiet(|| make(&Run::new(seed))) {
        Ok(x) => x,
        Err(e) => return c.note(format!("{} panicked: {}", name, e)),
    };
    let (words, primes) = match learn(&first) {
        Ok(w) => w,
        Err(e) => return c.inconclusive(format!("{}: {}", name, e)),
    };
    drop(first);
    let words = &words;
    // The Montgomery parameters for p and q are not in a secret wrapper (their types cannot be wiped, see DESIGN.md): the
    // round state that contains a Paillier key leaves the two primes themselves in memory.
    let mut held = words.clone();
    primes.iter().for_each(|p| held.public(p));
    let held = &held;
    let probe = |p: &Party<u32, P>, round: u8, _: &u32, _: &manul::protocol::ProtocolMessage| {
        unwatched(|| {
            if let Some(r) = &p.round {
                c.count("round-states");
                let x = &r;
                let t = (&Show(x)).flavours();
                // the alternate and hexadecimal flavours suffice: the state is large
                judge_text(c, &format!("{} round {}", name, round), t.into_iter().take(3).collect(), words);
            }
        })
    };
    mem(c, &format!("{} session", name), held, |_| drop(make(&Run::new(seed).probe(&probe))));
}
fn make_quiet<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    no_panic(std::panic::AssertUnwindSafe(f))
}
/// What `from` sent in a round, as seen by anyone.
fn sent<P: manul::protocol::Protocol<u32>>(o: &Outcome<u32, P>, from: u32, round: u8, part: Part) -> Result<J, String> {
    o.parties
        .values()
        .find_map(|p| p.log.get(&(round, from)))
        .and_then(|m| json_of(&part_of(m, part)))
        .ok_or_else(|| format!("no message of round {}", round))
}

fn keygen(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c16/keygen", idx);
    let cu = &CurveRef::secp256k1();
    let ids = &u32::many(rng, 1 + idx as usize % 4);
    session(c, "KeyInit", &|r| key_init::<K, u32>(r, ids), idx, &|o| {
        let mut w = Words::default();
        for (id, p) in &o.parties {
            let x = ks_view(p.end.as_ref().and_then(|e| e.result()).ok_or("no result")?).secret;
            scalar_words(&mut w, cu, "share", &x);
            if ids.len() > 1 {
                let j = sent(o, *id, 3, Part::Nb)?;
                let (e, z) = (num(&j["psi"]["challenge"]), num(&j["psi"]["proof"]));
                scalar_words(&mut w, cu, "proof nonce", &z.add(&cu.n).sub(&e.mul(&x).rem(&cu.n)).rem(&cu.n));
            }
        }
        Ok((w, vec![]))
    });
}

fn resharing(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c16/resharing", idx);
    let cu = &CurveRef::secp256k1();
    // with one old or new holder sufficing, the subshares sent are the shares themselves
    let t = 2 + idx as usize % 3;
    let ids = u32::many(rng, 5);
    let old = pick(rng, &ids, t);
    let new = &pick(rng, &ids, 2 + idx as usize % 4);
    let nt = 2 + idx as usize / 3 % (new.len() - 1);
    let old = match ThresholdKeyShare::<K, u32>::new_centralized(rng, &old, t, None) {
        Ok(x) => x,
        Err(_) => return,
    };
    let old = &old;
    session(c, "KeyResharing", &|r| reshare::<K, u32>(r, old, new, nt), idx, &|o| {
        let mut w = Words::default();
        for k in old.values() {
            scalar_words(&mut w, cu, "old share", &tks_view(k).secret);
        }
        let mut pts = vec![];
        for (_, p) in o.parties.iter().filter(|x| new.contains(x.0)) {
            let v = tks_view(p.end.as_ref().and_then(|e| e.result()).and_then(|r| r.as_ref()).ok_or("no result")?);
            scalar_words(&mut w, cu, "new share", &v.secret);
            pts.push((v.ids[&v.owner].clone(), v.secret.clone()));
        }
        pts.truncate(nt);
        coefficients(&cu.n, &pts).iter().for_each(|x| scalar_words(&mut w, cu, "joint coefficient", x));
        Ok((w, vec![]))
    });
}

fn auxiliary(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c16/auxiliary", idx);
    let ids = &u32::many(rng, 2);
    let cu = &curve_of::<T>();
    let words = |it: Vec<AuxView<u32>>| {
        let mut w = Words::default();
        for v in &it {
            let k = key_words_of::<T>(&v.p, &v.q);
            w.0.extend(k.0);
            w.1.extend(k.1);
        }
        (w, it.iter().flat_map(|v| both(&v.p, &v.q)).collect::<Vec<Nat>>())
    };
    if idx % 2 == 0 {
        session(c, "AuxGen", &|r| aux_gen::<T, u32>(r, ids), idx, &|o| {
            let v: Option<Vec<_>> = o.parties.values().map(|p| p.end.as_ref().and_then(|e| e.result()).map(aux_view)).collect();
            Ok(words(v.ok_or("no result")?))
        });
    } else {
        session(c, "KeyRefresh", &|r| key_refresh::<T, u32>(r, ids), idx, &|o| {
            let r: Option<Vec<_>> = o.parties.values().map(|p| p.end.as_ref().and_then(|e| e.result())).collect();
            let r = r.ok_or("no result")?;
            let (mut w, primes) = words(r.iter().map(|x| aux_view(&x.1)).collect());
            r.iter().for_each(|x| scalar_words(&mut w, cu, "share change", &change_view(&x.0).secret));
            Ok((w, primes))
        });
    }
}
/// The values that the Montgomery parameters hold: the modulus and R mod it, R^2 mod it are not searched for.
fn both(p: &Nat, q: &Nat) -> Vec<Nat> {
    vec![p.clone(), q.clone(), p.rem(q), q.rem(p)]
}

fn signing<S: SchemeParams>(c: &Ctx, name: &str, cu: &CurveRef, idx: u64) {
    let rng = &mut rng_for("c16/signing", idx);
    let ids = &u32::many(rng, 2);
    let ks = &KeyShare::<S, u32>::new_centralized(rng, ids, None);
    let ax = &quick_aux::<S, u32>(rng, ids);
    let msg = Nat::random_below(rng, &cu.n).to_be_padded(cu.len);
    let msg = &msg;
    let bits = <Ui<S> as Bounded>::BITS;
    let wide = <Wui<S> as Bounded>::BITS;
    session(c, name, &|r| sign::<S, u32>(r, msg, ks, ax), idx, &|o| {
        let mut w = Words::default();
        let keys: BTreeMap<u32, PKey<S>> = ax
            .iter()
            .map(|(i, a)| {
                let v = aux_view(a);
                (*i, PKey::of(v.p, v.q))
            })
            .collect();
        for k in keys.values() {
            let x = key_words_of::<S>(&k.p, &k.q);
            w.0.extend(x.0);
            w.1.extend(x.1);
        }
        let opened = |w: &mut Words, what: &str, k: &PKey<S>, v: &Nat| -> Nat {
            let (m, rho) = k.open(v);
            // as a scalar: the signed value reduced
            let scalar = if m.shl(1) > k.n { cu.n.sub(&k.n.sub(&m).rem(&cu.n)).rem(&cu.n) } else { m.rem(&cu.n) };
            scalar_words(w, cu, what, &scalar);
            let signed = if m.shl(1) > k.n { Int::new(true, k.n.sub(&m)) } else { Int::new(false, m.clone()) };
            w.int(what, &signed, bits);
            w.nat(what, &m);
            let n2 = k.n.mul(&k.n);
            w.monty(&format!("randomizer of {}", what), &rho, &k.n, bits);
            w.monty(&format!("randomizer of {}", what), &rho, &n2, wide);
            scalar
        };
        let first = r_of::<S>(o)?;
        let delta = ids.iter().try_fold(Nat::zero(), |a, x| Ok::<_, String>(a.add(&scal::<S>(&sent(o, *x, 3, Part::Eb)?["delta"])).rem(&cu.n)))?;
        for (i, share) in ks {
            scalar_words(&mut w, cu, "share", &ks_view(share).secret);
            let j = sent(o, *i, 1, Part::Eb)?;
            let k = opened(&mut w, "k", &keys[i], &ct_num(&j["cap_k"]));
            opened(&mut w, "gamma", &keys[i], &ct_num(&j["cap_g"]));
            let e2 = sent(o, *i, 2, Part::Eb)?;
            let n2 = sent(o, *i, 2, Part::Nb)?;
            for (field, what) in [("cap_fs", "beta"), ("hat_cap_fs", "hat beta")] {
                for (_, v) in map_of::<u32, Nat>(&e2[field], ct_num) {
                    opened(&mut w, what, &keys[i], &v);
                }
            }
            for (field, what) in [("cap_ds", "alpha"), ("hat_cap_ds", "hat alpha")] {
                for (to, v) in map_of::<u32, Nat>(&n2[field], ct_num) {
                    opened(&mut w, what, &keys[&to], &v);
                }
            }
            // sigma = k / delta m + r chi / delta
            let inv = delta.invmod(&cu.n).ok_or("delta is zero")?;
            let tilde_k = k.mul(&inv).rem(&cu.n);
            scalar_words(&mut w, cu, "k / delta", &tilde_k);
            let sigma = scal::<S>(&sent(o, *i, 4, Part::Nb)?["sigma"]);
            let km = tilde_k.mul(&Nat::from_be(msg)).rem(&cu.n);
            if let Some(ri) = first.invmod(&cu.n) {
                let tilde_chi = sigma.add(&cu.n).sub(&km).mul(&ri).rem(&cu.n);
                scalar_words(&mut w, cu, "chi / delta", &tilde_chi);
                let chi = tilde_chi.mul(&delta).rem(&cu.n);
                scalar_words(&mut w, cu, "chi", &chi);
                // chi G is not public, but S = chi Gamma is
                let gamma = ids.iter().map(|x| Ok(point::<S>(&sent(o, *x, 2, Part::Eb)?["cap_gamma"]))).collect::<Result<Vec<Aff>, String>>()?;
                if cu.mul(&chi, &sum_pts(cu, &gamma)) != point::<S>(&sent(o, *i, 3, Part::Nb)?["cap_s"]) {
                    return Err("the value of chi is wrong".into());
                }
            }
        }
        keys.values().for_each(|k| w.public(&k.n));
        Ok((w, keys.values().flat_map(|k| both(&k.p, &k.q)).collect()))
    });
}
/// The r of the resulting signature.
fn r_of<S: SchemeParams>(o: &Outcome<u32, InteractiveSigningProtocol<S, u32>>) -> Result<Nat, String> {
    let s = o.parties.values().find_map(|p| p.end.as_ref().and_then(|e| e.result())).ok_or("no signature")?;
    let (sig, _) = s.clone().to_backend();
    Ok(sc::<S>(&crate::curve::Scalar::<S>::from(&sig.r())))
}

pub fn all(c: &Ctx) {
    let n = scale(16, 200);
    c.par(n * 10, |i| shares(c, i));
    c.par(n, |i| aux(c, i));
    c.par(n * 4, |i| keygen(c, i));
    c.par(n * 4, |i| resharing(c, i));
    let cu = CurveRef::secp256k1();
    let tiny = curve_of::<T>();
    c.par(n + 2, |i| {
        if i < 2 {
            signing::<K>(c, "Signing (production)", &cu, i);
        } else if i % 2 == 0 {
            auxiliary(c, i / 2)
        } else {
            signing::<T>(c, "Signing", &tiny, i)
        }
    });
}
