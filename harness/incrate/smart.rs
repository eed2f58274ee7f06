// Parties which play their own values: all their messages are made here, with proofs that fit, so that what is wrong with
// the values is only caught by the check meant for it.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec::Vec;

use super::attack::*;
use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::protofix::*;
use super::rigs::*;
use super::session::*;
use super::util::*;
use super::zkfix::*;
use crate::curve::{Point, Scalar};
use crate::entities::Sid;
use crate::paillier::{PaillierParams, RPParamsWire, SecretKeyPaillier};
use crate::params::SchemeParams;
use crate::tools::bitvec::BitVec;
use crate::tools::hashing::{Chain, Hasher};
use crate::tools::Secret;
use crate::zk::{FacProof, ModProof, SchCommitment, SchProof, SchSecret};
use rand_core::RngCore;
use serde::Serialize;
use serde_json::{json, Value as J};

type Pt = <T as SchemeParams>::Paillier;
type Dg = <T as SchemeParams>::Digest;
type U = <Pt as PaillierParams>::Uint;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Twist {
    /// Nothing wrong: honest parties have to finish.
    None,
    /// Share changes which do not cancel out.
    Sum,
    /// A Paillier modulus of that many bits.
    Paillier(u32),
    /// A ring-Pedersen modulus of that many bits.
    Pedersen(u32),
    /// The share change (share) for one party is zero: nothing is wrong with that.
    Zero,
}
impl Twist {
    fn wrong(&self) -> bool {
        matches!(self, Twist::Sum | Twist::Paillier(_) | Twist::Pedersen(_))
    }
}

fn blum_prime(rng: &mut Rng, bits: u32) -> Nat {
    loop {
        let p = rand_prime(rng, bits);
        if p.rem(&Nat::from(4)) == Nat::from(3) {
            return p;
        }
    }
}
/// Two primes with a product of exactly `bits` bits.
fn blum_pair(rng: &mut Rng, bits: u32) -> (Nat, Nat) {
    loop {
        let (p, q) = (blum_prime(rng, bits / 2), blum_prime(rng, bits.div_ceil(2)));
        if p.mul(&q).bits() == bits && p != q {
            return (p, q);
        }
        // products of two numbers with the top bit set may have one bit less
        let (p, q) = (blum_prime(rng, bits / 2), blum_prime(rng, bits + 1 - bits / 2));
        if p.mul(&q).bits() == bits && p != q {
            return (p, q);
        }
    }
}

/// Own keys, with the modulus sizes asked for.
struct Keys {
    sk: SecretKeyPaillier<Pt>,
    pk: J,
    rp: Setup,
    rp_json: J,
}
fn keys(rng: &mut Rng, twist: Twist) -> Result<Keys, String> {
    let full = 2 * Pt::PRIME_BITS;
    let (n, m) = match twist {
        Twist::Paillier(b) => (b, full),
        Twist::Pedersen(b) => (full, b),
        _ => (full, full),
    };
    let (p, q) = blum_pair(rng, n);
    let wire = sk_from_primes::<Pt>(&p, &q)?;
    let pk = to_json(&wire.public_key());
    let (p, q) = blum_pair(rng, m);
    let rp = Setup::new(rng, p, q);
    let rp_json = rp.json::<T>();
    Ok(Keys { sk: wire.into_precomputed(), pk, rp, rp_json })
}
/// A proof for the ring-Pedersen parameters, put together from its definition.
fn prm(rng: &mut Rng, k: &Keys, sid: &Sid, id: &I) -> Result<J, String> {
    #[derive(Serialize)]
    struct Coms(Vec<crate::uint::PublicUint<U>>);
    let s = &k.rp;
    let a: Vec<Nat> = (0..T::SECURITY_BITS).map(|_| Nat::random_below(rng, &s.phi)).collect();
    let coms: Vec<J> = a.iter().map(|x| uint_json::<T>(&s.t.powmod(x, &s.n))).collect();
    let inner = coms.iter().map(from_json).collect::<Result<Vec<_>, _>>()?;
    let wire: RPParamsWire<Pt> = from_json(&k.rp_json)?;
    let mut reader = Hasher::<Dg>::new_with_dst(b"P_prm").chain(&Coms(inner)).chain(&wire).chain(&(sid, id)).finalize_to_reader();
    let e = BitVec::from_xof_reader(&mut reader, T::SECURITY_BITS);
    let z: Vec<J> = a
        .iter()
        .zip(e.bits())
        .map(|(a, e)| uint_json::<T>(&if *e { a.add(&s.lambda).rem(&s.phi) } else { a.clone() }))
        .collect();
    Ok(json!({"commitment": coms, "challenge": to_json(&e), "proof": z}))
}
fn map_json<V: Serialize>(m: &BTreeMap<I, V>) -> J {
    J::Array(m.iter().map(|(k, v)| json!([k, to_json(v)])).collect())
}
fn bits(rng: &mut Rng) -> BitVec {
    BitVec::random(rng, T::SECURITY_PARAMETER)
}
/// Own and all others' contributions combined.
fn combined(own: &BitVec, others: &BTreeMap<I, J>, field: &str) -> Result<BitVec, String> {
    let mut r = own.clone();
    for j in others.values() {
        r ^= &from_json::<BitVec>(&j[field])?;
    }
    Ok(r)
}

/// What the others broadcast in the second round.
fn second_round<R: Rig>(out: &Outcome<I, R::P>, me: &I) -> BTreeMap<I, J> {
    let mut m = BTreeMap::new();
    for p in out.parties.values() {
        for ((r, from), msg) in &p.log {
            if *r == 2 && from != me {
                if let Some(j) = json_of(&part_of(msg, Part::Eb)) {
                    m.insert(*from, j);
                }
            }
        }
    }
    m
}

trait Smart: Rig {
    /// All messages of `me` playing its own values.
    fn own(&self, rng: &mut Rng, shared: &[u8], me: &I, others: &BTreeMap<I, J>, twist: Twist) -> Result<Plan, String>;
}
fn sch(c: &CurveRef, x: &Nat, rng: &mut Rng) -> (Secret<Scalar<T>>, Point<T>, SchSecret<T>, SchCommitment<T>) {
    let s = mk_sc::<T>(c, x);
    let tau = SchSecret::<T>::random(rng);
    let a = SchCommitment::new(&tau);
    (Secret::init_with(|| s), s.mul_by_generator(), tau, a)
}

impl Smart for KeyInitRig {
    fn own(&self, rng: &mut Rng, shared: &[u8], me: &I, others: &BTreeMap<I, J>, twist: Twist) -> Result<Plan, String> {
        let c = curve_of::<T>();
        let sid = Sid::new::<T, I>(shared, &self.ids());
        let v = if twist == Twist::Zero { Nat::zero() } else { Nat::random_below(rng, &c.n) };
        let (x, cap_x, tau, a) = sch(&c, &v, rng);
        let (rho, u) = (bits(rng), bits(rng));
        let eb = json!({"rho": to_json(&rho)});
        let nb = json!({"cap_x": to_json(&cap_x), "cap_a": to_json(&a), "u": to_json(&u)});
        let v = self.recommit(shared, me, &eb, &nb).ok_or("no commitment")?;
        let all = combined(&rho, others, "rho")?;
        let psi = SchProof::new(&tau, &x, &a, &cap_x, &(&sid, me, &all));
        Ok(Plan::default()
            .edit(*me, 1, Part::Eb, None, bytes_of(&v))
            .edit(*me, 2, Part::Eb, None, bytes_of(&eb))
            .edit(*me, 2, Part::Nb, None, bytes_of(&nb))
            .edit(*me, 3, Part::Nb, None, bytes_of(&json!({"psi": to_json(&psi)}))))
    }
}
impl Smart for AuxGenRig {
    fn own(&self, rng: &mut Rng, shared: &[u8], me: &I, others: &BTreeMap<I, J>, twist: Twist) -> Result<Plan, String> {
        let sid = Sid::new::<T, I>(shared, &self.ids());
        let k = keys(rng, twist)?;
        let (rid, u) = (bits(rng), bits(rng));
        let eb = json!({"rid": to_json(&rid), "rp_params": k.rp_json});
        let nb = json!({"paillier_pk": k.pk, "psi": prm(rng, &k, &sid, me)?, "u": to_json(&u)});
        let v = self.recommit(shared, me, &eb, &nb).ok_or("no commitment")?;
        let all = combined(&rid, others, "rid")?;
        let aux = (&sid, me, &all);
        let psi_prime = ModProof::<T>::new(rng, &k.sk, &aux);
        let mut plan = Plan::default()
            .edit(*me, 1, Part::Eb, None, bytes_of(&v))
            .edit(*me, 2, Part::Eb, None, bytes_of(&eb))
            .edit(*me, 2, Part::Nb, None, bytes_of(&nb))
            .edit(*me, 3, Part::Nb, None, bytes_of(&json!({"psi_prime": to_json(&psi_prime)})));
        for (to, j) in others {
            let rp = rp_of::<T>(&j["rp_params"])?;
            let psi = FacProof::<T>::new(rng, &k.sk, &rp, &aux);
            plan = plan.edit(*me, 3, Part::Dm, Some(*to), bytes_of(&json!({"psi": to_json(&psi)})));
        }
        Ok(plan)
    }
}
impl Smart for KeyRefreshRig {
    fn own(&self, rng: &mut Rng, shared: &[u8], me: &I, others: &BTreeMap<I, J>, twist: Twist) -> Result<Plan, String> {
        let c = curve_of::<T>();
        let ids: Vec<I> = self.ids().into_iter().collect();
        let sid = Sid::new::<T, I>(shared, &self.ids());
        let k = keys(rng, twist)?;
        // share changes
        let mut vals: BTreeMap<I, Nat> = ids.iter().map(|i| (*i, Nat::random_below(rng, &c.n))).collect();
        if twist == Twist::Zero {
            let i = ids[rng.next_u32() as usize % ids.len()];
            vals.insert(i, Nat::zero());
        }
        if twist != Twist::Sum {
            let fix = ids[rng.next_u32() as usize % ids.len()];
            let rest = vals.iter().filter(|x| *x.0 != fix).fold(Nat::zero(), |a, x| a.add(x.1).rem(&c.n));
            vals.insert(fix, c.n.sub(&rest).rem(&c.n));
        }
        let mut xs = BTreeMap::new();
        let mut cap_xs = BTreeMap::new();
        let mut taus = BTreeMap::new();
        let mut cap_as = BTreeMap::new();
        for (i, v) in &vals {
            let (x, cap_x, tau, a) = sch(&c, v, rng);
            xs.insert(*i, x);
            cap_xs.insert(*i, cap_x);
            taus.insert(*i, tau);
            cap_as.insert(*i, a);
        }
        let ys: BTreeMap<I, Secret<Scalar<T>>> = ids
            .iter()
            .map(|i| {
                let y = mk_sc::<T>(&c, &Nat::random_below(rng, &c.n));
                (*i, Secret::init_with(|| y))
            })
            .collect();
        let cap_ys: BTreeMap<I, Point<T>> = ys.iter().map(|(i, y)| (*i, y.expose_secret().mul_by_generator())).collect();
        let (rid, u) = (bits(rng), bits(rng));
        let eb = json!({"rid": to_json(&rid), "rp_params": k.rp_json, "cap_ys": map_json(&cap_ys)});
        let nb = json!({"cap_xs": map_json(&cap_xs), "cap_as": map_json(&cap_as), "paillier_pk": k.pk, "psi": prm(rng, &k, &sid, me)?, "u": to_json(&u)});
        let v = self.recommit(shared, me, &eb, &nb).ok_or("no commitment")?;
        let all = combined(&rid, others, "rid")?;
        let aux = (&sid, me, &all);
        let psi_prime = ModProof::<T>::new(rng, &k.sk, &aux);
        let hat: BTreeMap<I, SchProof<T>> = ids.iter().map(|i| (*i, SchProof::new(&taus[i], &xs[i], &cap_as[i], &cap_xs[i], &aux))).collect();
        let mut plan = Plan::default()
            .edit(*me, 1, Part::Eb, None, bytes_of(&v))
            .edit(*me, 2, Part::Eb, None, bytes_of(&eb))
            .edit(*me, 2, Part::Nb, None, bytes_of(&nb))
            .edit(*me, 3, Part::Eb, None, bytes_of(&json!({"hat_psis": map_json(&hat)})))
            .edit(*me, 3, Part::Nb, None, bytes_of(&json!({"psi_prime": to_json(&psi_prime)})));
        for (to, j) in others {
            let rp = rp_of::<T>(&j["rp_params"])?;
            let psi = FacProof::<T>::new(rng, &k.sk, &rp, &aux);
            let theirs = j["cap_ys"].as_array().and_then(|a| a.iter().find(|x| x[0].as_u64() == Some(*me as u64))).ok_or("no key for this party")?;
            let cap_y: Point<T> = from_json(&theirs[1])?;
            let mut reader =
                Hasher::<Dg>::new_with_dst(b"KeyRefresh Round3").chain(&sid).chain(&all).chain(me).chain(&(cap_y * ys[to].expose_secret())).finalize_to_reader();
            let mask = sc(&Scalar::<T>::from_xof_reader(&mut reader));
            let cap_c = sc_json::<T>(&c, &vals[to].add(&mask).rem(&c.n));
            plan = plan.edit(*me, 3, Part::Dm, Some(*to), bytes_of(&json!({"psi": to_json(&psi), "cap_c": cap_c})));
        }
        Ok(plan)
    }
}

impl<'a> Campaign<'a> {
    fn played<R: Smart>(&self, k: u64, twist: Twist) {
        let c = curve_of::<T>();
        let mut rng = rng_for(&format!("{} own values", R::NAME), k);
        let n = 2 + (k % 2) as usize;
        let rig = R::make(&mut rng, n);
        let seed = rng.next_u64() >> 1;
        let shared = seed.to_le_bytes();
        let ids: Vec<I> = rig.ids().into_iter().collect();
        let me = ids[rng.next_u32() as usize % ids.len()];
        let honest = attacked(&rig, seed, Order::Random, &Plan::default(), None);
        let others = second_round::<R>(&honest, &me);
        let bad: BTreeSet<I> = [me].into();
        let mut run = |twist: Twist| -> Option<usize> {
            let plan = match no_panic(|| rig.own(&mut rng, &shared, &me, &others, twist)) {
                Ok(Ok(p)) => p,
                Ok(Err(e)) | Err(e) => {
                    self.ctx.note(format!("{}: own values with {:?} could not be made: {}", R::NAME, twist, short(&e, 80)));
                    return None;
                }
            };
            let out = attacked(&rig, seed, order_no(k), &plan, None);
            self.ctx.count(&format!("{} sessions with a party playing its own values", R::NAME));
            self.ctx.distinct(format!("{} own {:?} {}", R::NAME, twist, n).as_bytes());
            let text = || format!("{} case {}: {} of {:?} plays its own values: {:?}", R::NAME, k, me, ids, twist);
            self.ends(&rig, &c, seed, &out, &bad, &text);
            let results = out.parties.iter().filter(|x| *x.0 != me && matches!(x.1.end, Some(End::Result(_)))).count();
            if twist.wrong() && results > 0 {
                self.report(Fault::Blame, format!("{}: a result although the other party's values are not allowed ({})", R::NAME, match twist {
                    Twist::Sum => "sum of share changes",
                    Twist::Paillier(_) => "short Paillier modulus",
                    _ => "short ring-Pedersen modulus",
                }), text());
            }
            Some(results)
        };
        // without the control, nothing follows from a refusal
        match run(Twist::None) {
            Some(r) if r == n - 1 => self.ctx.measure("own values accepted when nothing is wrong with them", 1),
            _ => {
                self.ctx.measure("own values not accepted", 1);
                self.ctx.note(format!("{}: own values are refused even if nothing is wrong with them; the harness does not follow the protocol here", R::NAME));
                return;
            }
        }
        run(twist);
    }
    pub fn own_values(&self, k: u64) {
        let full = 2 * Pt::PRIME_BITS;
        let short = [full - 3, full - 4, full - 20, full / 2 + 9, full - 3][(k / 8 % 5) as usize];
        match k % 8 {
            0 => self.played::<KeyRefreshRig>(k, Twist::Sum),
            1 => self.played::<KeyRefreshRig>(k, Twist::Paillier(short)),
            2 => self.played::<KeyRefreshRig>(k, Twist::Pedersen(short)),
            3 => self.played::<AuxGenRig>(k, Twist::Paillier(short)),
            4 => self.played::<AuxGenRig>(k, Twist::Pedersen(short)),
            5 => self.played::<KeyRefreshRig>(k, Twist::Zero),
            6 => self.played::<KeyInitRig>(k, Twist::Zero),
            _ => self.played::<KeyRefreshRig>(k, Twist::Sum),
        }
    }
}
