// C22: honest signing ends everywhere with one signature, valid for exactly the given message under the group key.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::sync::Mutex;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::protofix::*;
use super::session::*;
use super::zkfix::*;
use crate::curve::{DeriveChildKey, PublicTweakable, SecretTweakable};
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::params::SchemeParams;
use crate::{AuxInfo, KeyShare, ThresholdKeyShare};
use rand_core::RngCore;

struct Seen {
    /// Every `r` of a signature: a repeated one would reveal the key.
    nonces: BTreeMap<Vec<u8>, String>,
    schedules: BTreeSet<u64>,
}

const ORIGINS: [&str; 9] = [
    "dealer",
    "key generation",
    "refresh",
    "threshold",
    "derived child",
    "resharing",
    "key generation, threshold, resharing, child, refresh",
    "dealer, known key",
    "twice refreshed",
];

/// Shares (and auxiliary data) of `n` signers of the wanted origin, and the key they must belong to.
#[allow(clippy::type_complexity)]
fn shares<S: SchemeParams, Id: Tid>(c: &CurveRef, rng: &mut Rng, ids: &BTreeSet<Id>, origin: &str) -> Result<(Ks<S, Id>, Option<Ax<S, Id>>, Aff), String>
where
    ecdsa::VerifyingKey<S::Curve>: PublicTweakable,
    ecdsa::SigningKey<S::Curve>: SecretTweakable,
{
    let err = |e: manul::session::LocalError| e.to_string();
    let n = ids.len();
    let more = |rng: &mut Rng, k: usize| {
        let mut s = ids.clone();
        while s.len() < n + k {
            s.insert(Id::some(rng));
        }
        s
    };
    let additive = |t: &Tk<S, Id>, ids: &BTreeSet<Id>| -> Result<Ks<S, Id>, String> {
        let mut m = BTreeMap::new();
        for i in ids {
            m.insert(i.clone(), t[i].to_key_share(ids).map_err(err)?);
        }
        Ok(m)
    };
    let secret = Nat::random_below(rng, &c.n.sub(&Nat::one())).add(&Nat::one());
    let sk = sk_of::<S>(c, &secret);
    let key = c.mul(&secret, &c.gen());
    let refreshed = |rng: &mut Rng, ks: Ks<S, Id>| -> Result<(Ks<S, Id>, Ax<S, Id>), String> {
        let who: BTreeSet<Id> = ks.keys().cloned().collect();
        let r = key_refresh::<S, Id>(&Run::new(rng.next_u64()), &who).results()?;
        let mut out = BTreeMap::new();
        let mut aux = BTreeMap::new();
        for (i, (ch, ax)) in r {
            out.insert(i.clone(), ks[&i].clone().update(ch).map_err(err)?);
            aux.insert(i, ax);
        }
        Ok((out, aux))
    };
    Ok(match origin {
        "dealer" => {
            let ks = KeyShare::new_centralized(rng, ids, None);
            let k = check_key_shares::<S, Id>(c, ids, &ks)?.1;
            (ks, None, k)
        }
        "dealer, known key" => {
            // includes the keys 1 and n - 1
            let (secret, key) = match rng.next_u32() % 4 {
                0 => (Nat::one(), c.gen()),
                1 => (c.n.sub(&Nat::one()), c.neg(&c.gen())),
                _ => (secret, key),
            };
            (KeyShare::new_centralized(rng, ids, Some(&sk_of::<S>(c, &secret))), None, key)
        }
        "key generation" => {
            let ks = key_init::<S, Id>(&Run::new(rng.next_u64()), ids).results()?;
            let k = check_key_shares::<S, Id>(c, ids, &ks)?.1;
            (ks, None, k)
        }
        "refresh" => {
            let ks = KeyShare::new_centralized(rng, ids, Some(&sk));
            let (ks, aux) = refreshed(rng, ks)?;
            (ks, Some(aux), key)
        }
        "twice refreshed" => {
            let ks = KeyShare::new_centralized(rng, ids, Some(&sk));
            let (ks, _) = refreshed(rng, ks)?;
            let (ks, aux) = refreshed(rng, ks)?;
            (ks, Some(aux), key)
        }
        "threshold" => {
            let all = more(rng, (n % 3) + 1);
            let t = ThresholdKeyShare::<S, Id>::new_centralized(rng, &all, n, Some(&sk)).map_err(err)?;
            // aux data made for all holders, restricted to the signers
            let aux = AuxInfo::<S, Id>::new_centralized(rng, &all);
            let mut m = BTreeMap::new();
            for i in ids {
                m.insert(i.clone(), aux[i].clone().subset(ids).map_err(err)?);
            }
            (additive(&t, ids)?, Some(m), key)
        }
        "derived child" => {
            let all = more(rng, 1);
            let t = ThresholdKeyShare::<S, Id>::new_centralized(rng, &all, n, Some(&sk)).map_err(err)?;
            let path: bip32::DerivationPath = format!("m/{}/{}", rng.next_u32() >> 1, rng.next_u32() >> 1).parse().map_err(|e| format!("{:?}", e))?;
            let mut d: Tk<S, Id> = BTreeMap::new();
            for (i, s) in &t {
                d.insert(i.clone(), s.derive_bip32(&path).map_err(|e| format!("{:?}", e))?);
            }
            let vk = t.values().next().unwrap().derive_verifying_key_bip32(&path).map_err(|e| format!("{:?}", e))?;
            (additive(&d, ids)?, None, vk_aff::<S>(&vk))
        }
        "resharing" => {
            let old = Id::many(rng, 3);
            let t = ThresholdKeyShare::<S, Id>::new_centralized(rng, &old, 2, Some(&sk)).map_err(err)?;
            let all = more(rng, 1);
            let r = reshare::<S, Id>(&Run::new(rng.next_u64()), &t, &all, n).results()?;
            let new: Tk<S, Id> = r.into_iter().filter_map(|(i, s)| s.map(|s| (i, s))).collect();
            (additive(&new, ids)?, None, key)
        }
        _ => {
            let ks = key_init::<S, Id>(&Run::new(rng.next_u64()), ids).results()?;
            let key = check_key_shares::<S, Id>(c, ids, &ks)?.1;
            let t: Tk<S, Id> = ks.iter().map(|(i, k)| (i.clone(), ThresholdKeyShare::from_key_share(k))).collect();
            let all = more(rng, 1);
            let r = reshare::<S, Id>(&Run::new(rng.next_u64()), &t, &all, n).results()?;
            let new: Tk<S, Id> = r.into_iter().filter_map(|(i, s)| s.map(|s| (i, s))).collect();
            let path: bip32::DerivationPath = "m/1/2/3".parse().map_err(|e| format!("{:?}", e))?;
            let mut d: Tk<S, Id> = BTreeMap::new();
            for (i, s) in &new {
                d.insert(i.clone(), s.derive_bip32(&path).map_err(|e| format!("{:?}", e))?);
            }
            let vk = new.values().next().unwrap().derive_verifying_key_bip32(&path).map_err(|e| format!("{:?}", e))?;
            if vk_aff::<S>(&new.values().next().unwrap().verifying_key().map_err(err)?) != key {
                return Err("resharing changed the key".into());
            }
            let (ks, aux) = refreshed(rng, additive(&d, ids)?)?;
            (ks, Some(aux), vk_aff::<S>(&vk))
        }
    })
}

/// A message of the curve's field size: random ones, extremes, multiples and neighbours of the group order.
fn a_message(c: &CurveRef, rng: &mut Rng, k: u64) -> Vec<u8> {
    let len = c.len;
    let top = Nat::pow2(8 * len as u32).sub(&Nat::one());
    let v = match k % 8 {
        0 => Nat::zero(),
        1 => top,
        2 => c.n.clone(),
        3 => c.n.add(&Nat::one()),
        4 => c.n.sub(&Nat::one()),
        5 => Nat::one(),
        _ => Nat::random_bits(rng, 8 * len as u32),
    };
    v.to_be_padded(len)
}

fn one<S: SchemeParams, Id: Tid>(ctx: &Ctx, seen: &Mutex<Seen>, label: &str, idx: u64, n: usize, origin: &str, quick: bool)
where
    ecdsa::VerifyingKey<S::Curve>: PublicTweakable,
    ecdsa::SigningKey<S::Curve>: SecretTweakable,
{
    let c = curve_of::<S>();
    let mut rng = rng_for(label, idx);
    let ids = Id::many(&mut rng, n);
    let order = order_no(idx / 2);
    let msg = a_message(&c, &mut rng, idx / 3);
    ctx.case(&format!("{} from {}", label, origin), &|| format!("signers {:?}, order {:?}, message {}, case {}", ids, order, hexs(&msg), idx), || {
        let (ks, aux, key) = shares::<S, Id>(&c, &mut rng, &ids, origin)?;
        let ax = match aux {
            Some(a) => a,
            None if quick || idx % 3 == 0 => quick_aux::<S, Id>(&mut rng, &ids),
            None if idx % 3 == 1 => AuxInfo::<S, Id>::new_centralized(&mut rng, &ids),
            None => aux_gen::<S, Id>(&Run::new(rng.next_u64()), &ids).results()?,
        };
        let run = Run::new(rng.next_u64()).order(order);
        let out = sign::<S, Id>(&run, &msg, &ks, &ax);
        ctx.measure("messages delivered", out.delivered);
        ctx.distinct(&out.schedule);
        seen.lock().unwrap().schedules.insert(fnv(&out.schedule));
        let res = out.results()?;
        if res.keys().cloned().collect::<BTreeSet<_>>() != ids {
            return Err("not every signer has a result".into());
        }
        let sigs: BTreeMap<Id, (Vec<u8>, u8)> = res
            .iter()
            .map(|(i, s)| {
                let (sig, rid) = s.clone().to_backend();
                (i.clone(), (sig.to_bytes().to_vec(), rid.to_byte()))
            })
            .collect();
        let (first, value) = sigs.iter().next().unwrap();
        for (i, v) in &sigs {
            if v != value {
                return Err(format!("{:?} and {:?} hold different signatures: {:?} / {:?}", first, i, value, v));
            }
        }
        let (bytes, rid) = value.clone();
        let half = bytes.len() / 2;
        let (r, s) = (Nat::from_be(&bytes[..half]), Nat::from_be(&bytes[half..]));
        let z = Nat::from_be(&msg).rem(&c.n);
        if !c.ecdsa_ok(&key, &z, &r, &s) {
            return Err(format!("the signature does not verify under the group key: r {}, s {}", r.hex(), s.hex()));
        }
        if s.shl(1) > c.n {
            return Err(format!("the signature is not normalized: s {}", s.hex()));
        }
        // other messages: the difference decides, not the representation
        for d in [1u64, 2, 1 << 31] {
            let other = z.add(&Nat::from(d)).rem(&c.n);
            if other != z && c.ecdsa_ok(&key, &other, &r, &s) {
                return Err("the signature verifies for another message".into());
            }
        }
        // the backend agrees, and recovers the key
        let (sig, recid) = res.values().next().unwrap().clone().to_backend();
        let zb = z.to_be_padded(c.len);
        match ecdsa::VerifyingKey::<S::Curve>::recover_from_prehash(&zb, &sig, recid) {
            Ok(vk) if vk_aff::<S>(&vk) == key => {}
            Ok(_) => return Err(format!("the recovery id {} gives another key", rid)),
            Err(e) => return Err(format!("no key can be recovered: {}", e)),
        }
        if c.len == 32 {
            if let Some(old) = seen.lock().unwrap().nonces.insert(r.to_be(), format!("{} #{}", label, idx)) {
                return Err(format!("the nonce of {} was used before", old));
            }
        }
        ctx.measure("signatures checked", sigs.len() as u64);
        if idx % 4 == 0 {
            // the same data sign again, the same message under other randomness: another valid signature, another nonce
            let r2 = sign::<S, Id>(&Run::new(rng.next_u64()), &msg, &ks, &ax).results()?;
            let b2 = r2.values().next().unwrap().clone().to_backend().0.to_bytes().to_vec();
            if c.len == 32 && b2[..half] == bytes[..half] {
                return Err("two signing runs used the same nonce".into());
            }
            if !c.ecdsa_ok(&key, &z, &Nat::from_be(&b2[..half]), &Nat::from_be(&b2[half..])) {
                return Err("the second signature does not verify".into());
            }
            ctx.measure("second signatures from the same data", 1);
        }
        ctx.sample(origin, format!("{} signers, recovery id {}", n, rid));
        ctx.measure(&format!("recovery id {}", rid), 1);
        Ok(())
    });
}

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C22");
        let seen = Mutex::new(Seen { nonces: BTreeMap::new(), schedules: BTreeSet::new() });
        if thorough() {
            ctx.par(12, |i| {
                let origin = ["dealer", "key generation", "derived child", "resharing"][(i % 4) as usize];
                one::<ProductionParams112, u32>(&ctx, &seen, "secp256k1", i, 2, origin, true)
            });
        }
        ctx.par(scale(900, 30000), |i| {
            let n = [2, 3, 2, 1, 4, 2, 3, 5][(i / 9 % 8) as usize];
            let origin = ORIGINS[(i % 9) as usize];
            match i % 2 {
                0 => one::<TestParams, u32>(&ctx, &seen, "tiny32, number ids", i, n, origin, false),
                _ => one::<TestParams, String>(&ctx, &seen, "tiny32, string ids", i, n, origin, false),
            }
        });
        let s = seen.lock().unwrap();
        ctx.measure("distinct delivery schedules", s.schedules.len() as u64);
        if s.schedules.len() < 20 {
            ctx.inconclusive("too few distinct schedules");
        }
        ctx.finish(
            "Sessions of the real InteractiveSigning rounds for 1-5 signers under FIFO, LIFO, random and starving delivery, with shares of nine origins and auxiliary data of five; all signers' results compared and judged by the harness's own ECDSA equation and by public-key recovery",
            &["mostly reduced-size parameters; production-size sessions (thorough tier) use auxiliary data built from random primes instead of safe primes"],
        )
    })
}
