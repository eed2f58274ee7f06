// C06: BIP32 derivation of shares, of the public key, and of an independent implementation agree.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::hashref::*;
use super::protofix::*;
use super::session::*;
use super::zkfix::*;
use crate::curve::{DeriveChildKey, PublicTweakable, SecretTweakable};
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::params::SchemeParams;
use crate::{KeyShare, ThresholdKeyShare};
use bip32::{ChildNumber, DerivationPath};
use ecdsa::hazmat::DigestPrimitive;
use ecdsa::{SigningKey, VerifyingKey};
use rand_core::RngCore;

const H: u32 = 1 << 31;

fn path_of(p: &[u32]) -> DerivationPath {
    let mut d: DerivationPath = "m".parse().unwrap();
    for i in p {
        d.push(ChildNumber::from_bytes(i.to_be_bytes()));
    }
    d
}

/// The secret to add, and the resulting public key, as BIP32 defines them; None if the path has no such child.
struct Ref<'a> {
    c: &'a CurveRef,
    sha: &'a Sha2,
}
impl Ref<'_> {
    fn ser(&self, q: &Aff) -> Vec<u8> {
        let b = self.c.compressed(q);
        let mut r = vec![0; 33 - b.len()];
        r.extend(b);
        r
    }
    fn derive<S: SchemeParams>(&self, q: &Aff, path: &[u32]) -> Option<(Nat, Aff)>
    where
        S::Curve: DigestPrimitive,
    {
        use digest::Digest;
        let mut seed = b"chain-code-derivation".to_vec();
        seed.extend(self.ser(q));
        // The tiny curve brings a toy digest of its own; for secp256k1 it is SHA-256.
        let mut cc = if self.c.len == 32 { self.sha.sha256(&seed) } else { <S::Curve as DigestPrimitive>::Digest::digest(&seed).to_vec() };
        cc.resize(32, 0);
        let (mut q, mut sum) = (q.clone(), Nat::zero());
        for i in path {
            if *i >= H {
                return None;
            }
            let mut d = self.ser(&q);
            d.extend(i.to_be_bytes());
            let h = self.sha.hmac512(&cc, &d);
            let il = &h[..32];
            let tweak = if self.c.len == 32 {
                let t = Nat::from_be(il);
                if t >= self.c.n || t.is_zero() {
                    return None;
                }
                t
            } else {
                // the toy curve maps the low bytes to 1..n-1
                Nat::from_be(&il[8..]).rem(&self.c.n.sub(&Nat::one())).add(&Nat::one())
            };
            q = self.c.add(&q, &self.c.mul(&tweak, &self.c.gen()));
            q.as_ref()?;
            sum = sum.add(&tweak).rem(&self.c.n);
            cc = h[32..].to_vec();
        }
        Some((sum, q))
    }
}

fn some_path(rng: &mut Rng, k: u64) -> Vec<u32> {
    let len = match k % 8 {
        0 => 0,
        1 => 1,
        2 => 2 + (rng.next_u32() % 3) as usize,
        7 if k % 64 == 7 => 60 + (rng.next_u32() % 196) as usize,
        _ => 1 + (rng.next_u32() % 8) as usize,
    };
    (0..len)
        .map(|_| match rng.next_u32() % 6 {
            0 => 0,
            1 => H - 1,
            2 => rng.next_u32() % 4,
            3 => 1 << (rng.next_u32() % 31),
            4 => 0x0102_0304 & rng.next_u32(),
            _ => rng.next_u32() % H,
        })
        .collect()
}

fn one<S: SchemeParams, Id: Tid>(ctx: &Ctx, sha: &Sha2, label: &str, k: u64)
where
    S::Curve: DigestPrimitive,
    VerifyingKey<S::Curve>: PublicTweakable,
    SigningKey<S::Curve>: SecretTweakable,
{
    let c = curve_of::<S>();
    let r = Ref { c: &c, sha };
    let mut rng = rng_for(label, k);
    let n = 1 + (rng.next_u32() % 5) as usize;
    let t = 1 + (rng.next_u32() as usize) % n;
    let ids = Id::many(&mut rng, n);
    let path = some_path(&mut rng, k);
    let secret = match rng.next_u32() % 8 {
        0 => Nat::one(),
        1 => c.n.sub(&Nat::one()),
        _ => Nat::random_below(&mut rng, &c.n.sub(&Nat::one())).add(&Nat::one()),
    };
    let sk = sk_of::<S>(&c, &secret);
    let origin = k % 3;
    let desc = || format!("{:?} of {} (origin {}), key {}, path {:?}", ids, t, origin, secret.hex(), path);
    ctx.case(&format!("{} path length {}", label, if path.len() > 8 { "long".to_string() } else { path.len().to_string() }), &desc, || {
        // a dealer's threshold shares, converted additive shares, or shares out of key generation
        let (shares, secret): (Tk<S, Id>, Nat) = match origin {
            0 => {
                let ks = KeyShare::<S, Id>::new_centralized(&mut rng, &ids, Some(&sk));
                (ks.iter().map(|(i, s)| (i.clone(), ThresholdKeyShare::from_key_share(s))).collect(), secret.clone())
            }
            1 if k % 6 == 1 => {
                let ks = key_init::<S, Id>(&Run::new(rng.next_u64()), &ids).results()?;
                let sum = ks.values().fold(Nat::zero(), |a, s| a.add(&ks_view(s).secret).rem(&c.n));
                (ks.iter().map(|(i, s)| (i.clone(), ThresholdKeyShare::from_key_share(s))).collect(), sum)
            }
            _ => (ThresholdKeyShare::<S, Id>::new_centralized(&mut rng, &ids, t, Some(&sk)).map_err(|e| e.to_string())?, secret.clone()),
        };
        let t = shares.values().next().unwrap().threshold();
        let q = c.mul(&secret, &c.gen());
        let (tweak, child) = r.derive::<S>(&q, &path).ok_or("the reference has no child here")?;
        let child_secret = secret.add(&tweak).rem(&c.n);
        if c.mul(&child_secret, &c.gen()) != child {
            return Err("harness: the reference disagrees with itself".into());
        }
        let dp = path_of(&path);
        let vk = sk_of::<S>(&c, &secret).verifying_key().clone();
        let direct = vk.derive_verifying_key_bip32(&dp).map_err(|e| format!("deriving the public key: {:?}", e))?;
        if vk_aff::<S>(&direct) != child {
            return Err("the derived public key differs from the reference's".into());
        }
        // A path is also its text form.
        let text: DerivationPath = format!("m{}", path.iter().map(|i| format!("/{}", i)).collect::<String>()).parse().map_err(|e| format!("{:?}", e))?;
        if vk_aff::<S>(&vk.derive_verifying_key_bip32(&text).map_err(|e| format!("{:?}", e))?) != child {
            return Err("the path read from text derives another key".into());
        }
        let mut derived: Tk<S, Id> = BTreeMap::new();
        for (i, s) in &shares {
            let before = tks_view(s);
            let v = s.derive_verifying_key_bip32(&dp).map_err(|e| format!("deriving the key from the share of {:?}: {:?}", i, e))?;
            if vk_aff::<S>(&v) != child {
                return Err(format!("the key derived from the share of {:?} differs", i));
            }
            let d = s.derive_bip32(&dp).map_err(|e| format!("deriving the share of {:?}: {:?}", i, e))?;
            let dv = d.verifying_key().map_err(|e| e.to_string())?;
            if vk_aff::<S>(&dv) != child {
                return Err(format!("the derived share of {:?} has another verifying key", i));
            }
            let w = tks_view(&d);
            if w.owner != before.owner || w.threshold != before.threshold || w.ids != before.ids {
                return Err(format!("derivation changed the owner, threshold or share identifiers of {:?}", i));
            }
            if tks_view(s) != before {
                return Err("derivation changed the parent share".into());
            }
            if c.mul(&w.secret, &c.gen()) != w.public[i] {
                return Err(format!("the derived public share of {:?} does not match its secret one", i));
            }
            // Another derivation gives the same.
            if tks_view(&s.derive_bip32(&dp).map_err(|e| format!("{:?}", e))?) != w {
                return Err("a second derivation gives another share".into());
            }
            derived.insert(i.clone(), d);
        }
        let views: BTreeMap<Id, TksView<Id>> = derived.iter().map(|(i, d)| (i.clone(), tks_view(d))).collect();
        let first = views.values().next().unwrap();
        if views.values().any(|v| v.public != first.public) {
            return Err("the holders derive different public shares".into());
        }
        let all: Vec<Id> = derived.keys().cloned().collect();
        for sub in subsets(&all, t) {
            let xs: Vec<Nat> = sub.iter().map(|i| first.ids[i].clone()).collect();
            let got = sub.iter().fold(Nat::zero(), |a, i| a.add(&lagrange(&c.n, &xs, &first.ids[i]).mul(&views[i].secret)).rem(&c.n));
            if got != child_secret {
                return Err(format!("the derived shares of {:?} do not reconstruct the child secret", sub));
            }
            ctx.measure("subsets reconstructed", 1);
            let set: BTreeSet<Id> = sub.iter().cloned().collect();
            for i in &sub {
                let k = derived[i].to_key_share(&set).map_err(|e| e.to_string())?;
                if vk_aff::<S>(&k.verifying_key()) != child {
                    return Err(format!("the additive share of {:?} has another verifying key", i));
                }
            }
        }
        ctx.distinct(&[k.to_le_bytes().to_vec(), path.iter().flat_map(|x| x.to_be_bytes()).collect()].concat());
        ctx.sample(label, desc());
        Ok(())
    });
    // Hardened steps anywhere have no public child: everything must refuse them.
    let at = if path.is_empty() { 0 } else { rng.next_u32() as usize % (path.len() + 1) };
    let mut bad = path.clone();
    bad.insert(at.min(path.len()), H | (rng.next_u32() % 5) * (rng.next_u32() % (H / 4)));
    if k % 2 == 0 {
        ctx.case(&format!("{} hardened", label), &|| format!("{:?}", bad), || {
            let dp = path_of(&bad);
            let vk = sk.verifying_key().clone();
            if vk.derive_verifying_key_bip32(&dp).is_ok() {
                return Err("a hardened path was derived from the public key".into());
            }
            let ids = <Id as Tid>::many(&mut rng, 2);
            let sh = ThresholdKeyShare::<S, Id>::new_centralized(&mut rng, &ids, 2, Some(&sk)).map_err(|e| e.to_string())?;
            for s in sh.values() {
                if s.derive_bip32(&dp).is_ok() || s.derive_verifying_key_bip32(&dp).is_ok() {
                    return Err("a hardened path was derived from a share".into());
                }
            }
            Ok(())
        });
    }
}

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C06");
        let sha = Sha2::new();
        // The reference itself, against published vectors.
        let ok = hexs(&sha.sha256(b"abc")) == "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad"
            && hexs(&sha.sha512(b"abc")).starts_with("ddaf35a193617abacc417349ae20413112e6fa4e89a97ea2")
            && hexs(&sha.hmac512(b"Jefe", b"what do ya want for nothing?")).starts_with("164b7a7bfcf819e2e395fbe73b56e0a387bd64222e831fd6");
        if !ok {
            ctx.inconclusive("the harness's hash functions fail their published vectors");
        }
        // BIP32 test vector 2, chain m/0 (public derivation from the master node), with its own chain code.
        let c = CurveRef::secp256k1();
        let master = Nat::from_hex("4b03d6fc340455b363f51020ad3ecca4f0850280cf436c70c727923f6db46c3e");
        let cc = Nat::from_hex("60499f801b896d83179a4374aeb7822aaeaceaa0db1f85ee3e904c4defbd9689").to_be_padded(32);
        let r = Ref { c: &c, sha: &sha };
        let mut d = r.ser(&c.mul(&master, &c.gen()));
        d.extend(0u32.to_be_bytes());
        let h = sha.hmac512(&cc, &d);
        let child = Nat::from_be(&h[..32]).add(&master).rem(&c.n);
        if child.hex().trim_start_matches("0x").trim_start_matches('0') != "abe74a98f6c7eabee0428f53798f0ab8aa1bd37873999041703c742f15ac7e1e" {
            ctx.inconclusive(format!("the harness's derivation fails BIP32 test vector 2: {}", child.hex()));
        }
        ctx.par(scale(900, 14000), |k| match k % 5 {
            0 => one::<TestParams, u32>(&ctx, &sha, "tiny32, number ids", k),
            1 => one::<TestParams, String>(&ctx, &sha, "tiny32, string ids", k),
            2 | 3 => one::<ProductionParams112, u32>(&ctx, &sha, "secp256k1, number ids", k),
            _ => one::<ProductionParams112, String>(&ctx, &sha, "secp256k1, string ids", k),
        });
        ctx.finish(
            "Random keys, thresholds, share origins and paths (empty to 255 levels, extreme indices, hardened); every derivation is compared with the harness's own BIP32 (own SHA-2, HMAC, curve), and the derived shares of every threshold-sized subset are interpolated",
            &["the initial chain code is the documented function of the public key", "on the tiny test curve the toy digest and the tweak reduction of the test-curve crate are taken as given"],
        )
    })
}
