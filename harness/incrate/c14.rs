// C14: malformed and degenerate proofs and statements get a verdict, and never a positive one for something incomplete.
// Besides the real parameters, the verifiers run over a parameter set whose digest ignores its input: there every proof
// "has the right challenge", so the verdict is decided by the structural and algebraic checks alone, and the harness's
// own evaluation of shape, group membership, ranges and equations is the oracle.
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::util::*;
use super::ecref::*;
use super::zkeq::*;
use super::zkfix::*;
use super::zkforge::*;
use super::zkweak::*;
use crate::dev::TestParams;
use crate::params::SchemeParams;
use crypto_bigint::Bounded;
use rand_core::RngCore;

/// Ring elements that occur together in one verification equation.
fn groups(kind: Kind) -> Vec<Vec<&'static str>> {
    match kind {
        Kind::Prm => vec![vec!["/commitment/*", "setup/base_randomizer"], vec!["/commitment/*", "setup/base_value", "setup/base_randomizer"]],
        Kind::Mod => vec![vec!["/commitment"], vec!["/challenge/*", "/proof/*/z", "/proof/*/x"]],
        Kind::Fac => vec![
            vec!["/cap_a", "/cap_p", "setup/base_randomizer"],
            vec!["/cap_b", "/cap_q", "setup/base_randomizer"],
            vec!["/cap_t", "/cap_q"],
            vec!["/cap_a", "/cap_b", "/cap_t", "/cap_p", "/cap_q", "setup/base_value", "setup/base_randomizer"],
            vec!["/cap_a", "/cap_b", "/cap_t", "setup/base_value"],
        ],
        Kind::Enc => vec![
            vec!["/cap_d", "c", "/z2"],
            vec!["/cap_d", "/z2"],
            vec!["/cap_s", "/cap_t", "setup/base_randomizer", "setup/base_value"],
            vec!["/cap_t", "setup/base_value"],
        ],
        Kind::Dec => vec![
            vec!["k", "d", "/commitments/*/cap_a", "/elements/*/nu"],
            vec!["k", "/commitments/*/cap_a"],
            vec!["/elements/*/nu", "/commitments/*/cap_a"],
        ],
        Kind::AffG => vec![
            vec!["c", "d", "/cap_a"],
            vec!["c", "/cap_a"],
            vec!["/w", "/cap_a"],
            vec!["y", "/cap_b_y", "/w_y"],
            vec!["/cap_b_y", "/w_y"],
            vec!["/cap_e", "/cap_s", "setup/base_value", "setup/base_randomizer"],
            vec!["/cap_f", "/cap_t", "setup/base_value", "setup/base_randomizer"],
            vec!["/cap_e", "/cap_f", "setup/base_randomizer"],
            vec!["/cap_e", "/cap_f", "/cap_s", "/cap_t", "setup/base_value", "setup/base_randomizer"],
        ],
        Kind::AffStar => vec![
            vec!["c", "d", "/commitments/*/cap_a"],
            vec!["c", "/commitments/*/cap_a"],
            vec!["/elements/*/w", "/commitments/*/cap_a"],
            vec!["y", "/commitments/*/cap_b", "/elements/*/lambda"],
            vec!["/commitments/*/cap_b", "/elements/*/lambda"],
        ],
        _ => vec![],
    }
}

/// A ring element: `how` 0: zero, 1: multiple of a factor, 2: zero but not reduced, 3: one, 4: minus one, 5: all ones
fn ring_value<S: SchemeParams>(w: &World<S>, pubs: &Pubs, ty: Ty, how: u32, rng: &mut Rng) -> J {
    let (name, ct) = match ty {
        Res(m) => (m, false),
        Ct(m) => (m, true),
        _ => unreachable!(),
    };
    let n = modulus(pubs, name);
    let p = match name {
        "pk0" => &w.k0.p,
        "pk1" => &w.k1.p,
        _ => &w.setup.p,
    };
    let (m, bits) = if ct { (n.mul(&n), <Wui<S> as Bounded>::BITS) } else { (n.clone(), <Ui<S> as Bounded>::BITS) };
    let v = match how {
        0 => Nat::zero(),
        1 => Nat::random_below(rng, &m.divrem(p).0).mul(p),
        2 => {
            // the largest multiple of the modulus that fits, if there is room
            let top = Nat::pow2(bits).sub(&Nat::one());
            top.sub(&top.rem(&m))
        }
        3 => Nat::one(),
        4 => m.sub(&Nat::one()),
        _ => Nat::pow2(bits).sub(&Nat::one()),
    };
    if ct {
        ct_json::<S>(&v)
    } else {
        uint_json::<S>(&v)
    }
}

fn extreme<S: SchemeParams>(w: &World<S>, pubs: &Pubs, ty: Ty, old: &J, rng: &mut Rng) -> J {
    let c = &w.curve;
    let k = rng.next_u32();
    match ty {
        Res(_) | Ct(_) => ring_value(w, pubs, ty, k % 6, rng),
        Exp => uint_json::<S>(&[Nat::zero(), Nat::one(), Nat::pow2(<Ui<S> as Bounded>::BITS).sub(&Nat::one())][(k % 3) as usize]),
        Bool => J::Bool(k & 1 == 1),
        Pt => {
            let g = mk_sc::<S>(c, &[Nat::zero(), Nat::one(), c.n.sub(&Nat::one())][(k % 3) as usize]).mul_by_generator();
            to_json(&g)
        }
        Sc => sc_json::<S>(c, &[Nat::zero(), Nat::one(), c.n.sub(&Nat::one())][(k % 3) as usize]),
        Sg => {
            let bound = old["bound"].as_u64().unwrap() as u32;
            let max = match k % 5 {
                0 => 1,
                1 => bound,
                2 => (bound + 8).min(<Ui<S> as Bounded>::BITS - 1),
                _ => <Ui<S> as Bounded>::BITS - 1,
            };
            let v = match (k / 5) % 3 {
                0 => Nat::zero(),
                1 => Nat::one(),
                _ => Nat::pow2(max).sub(&Nat::one()),
            };
            signed_json(&Int::new(k & 64 != 0, v), max)
        }
        Bits => {
            let n = rng.next_u32() % 70;
            bits_json(&(0..n).map(|_| k & 32 != 0).collect::<Vec<_>>(), 0)
        }
    }
}

struct Run<'a, S: SchemeParams> {
    c: &'a Ctx,
    case: &'a Case<'a, S>,
    aux: &'a Aux,
    set: &'static str,
    idx: u64,
}
impl<S: SchemeParams> Run<'_, S> {
    fn go(&self, family: &str, pubs: &Pubs, f: &J, what: &str) {
        let kind = self.case.kind;
        let v = verify::<S>(kind, pubs, f, self.aux);
        let key = format!("{} {}: {}", self.set, kind.name(), family);
        self.c.count(&key);
        self.c.distinct(format!("{}{}{}", key, what, self.idx).as_bytes());
        let short_v = match &v {
            Verdict::Accept => "accepted",
            Verdict::Reject => "rejected",
            Verdict::NoDecode(_) => "did not decode",
            Verdict::Panic(_) => "panic",
        };
        self.c.count(&format!("verdict: {}", short_v));
        self.c.sample(&key, format!("{}: {}", what, short_v));
        let show = || format!("{} | publics {} | proof {} | aux {:?}", what, short(&serde_json::to_string(pubs).unwrap(), 1500), short(&f.to_string(), 2000), self.aux);
        match v {
            Verdict::Panic(e) => self.c.violation(&format!("{}: {}: panic", kind.name(), family), "verification panics", format!("{} | {}", e, show())),
            Verdict::Accept => {
                if let Some(d) = defect::<S>(kind, self.case.w, pubs, f) {
                    self.c.violation(&format!("{}: {}: accepted", kind.name(), family), "an incomplete or degenerate proof is accepted", format!("{} | {}", d, show()));
                } else {
                    self.c.count("accepted: complete by the independent evaluation");
                }
            }
            _ => {}
        }
    }
}

fn set_all<S: SchemeParams>(w: &World<S>, pubs: &mut Pubs, f: &mut J, kind: Kind, name: &str, how: u32, reps: Option<usize>, rng: &mut Rng) {
    if let Some((p, ty)) = fields(kind).into_iter().find(|x| x.0 == name) {
        let ptrs = expand(f, p);
        for (i, q) in ptrs.iter().enumerate() {
            if reps.map_or(true, |r| r == i || ptrs.len() == 1) {
                let v = ring_value(w, pubs, ty, how, rng);
                *f.pointer_mut(q).unwrap() = v;
            }
        }
    } else if let Some((k, p, ty)) = pub_fields(kind).into_iter().find(|x| format!("{}{}", x.0, x.1) == name) {
        let v = ring_value(w, pubs, ty, how, rng);
        *pubs.get_mut(k).unwrap().pointer_mut(p).unwrap() = v;
    } else {
        panic!("no field {}", name);
    }
}

fn attack<S: SchemeParams>(c: &Ctx, set: &'static str, real: &World<S>, kind: Kind, idx: u64) {
    let rng = &mut rng_for(&format!("c14/{}/{}", set, kind.name()), idx);
    let mode = if set == "oblivious" { [0, 0, 1, 2][(idx % 4) as usize] } else { 0 };
    STREAM.with(|s| s.set((idx, mode)));
    let mut sm;
    let w = match kind {
        Kind::Prm | Kind::Mod => real,
        _ if idx % 5 == 0 && kind != Kind::Fac => real,
        _ => {
            sm = World::<S>::small(rng, 14, 15, 13);
            if kind == Kind::Fac {
                let r = World::<S>::new(rng, false);
                sm.k0 = r.k0;
            }
            &sm
        }
    };
    let parties = 1 + rng.next_u32() as usize % 9;
    let case = Case::<S>::new(w, kind, rng, 8, 8, 63, parties);
    let aux = Aux::random(rng);
    let Ok(honest) = case.prove(rng, &aux) else {
        c.count("control: honest proof NOT made");
        return;
    };
    let pubs = &case.pubs;
    let run = Run { c, case: &case, aux: &aux, set, idx };
    match verify::<S>(kind, pubs, &honest, &aux) {
        Verdict::Accept => c.count("control: honest proof accepted"),
        v => {
            c.count("control: honest proof NOT accepted");
            c.note(format!("{} honest: {:?}", kind.name(), v));
        }
    }
    if let Some(d) = defect::<S>(kind, w, pubs, &honest) {
        c.note(format!("{}: the oracle finds a defect in an honest proof: {}", kind.name(), d));
        c.count("control: oracle refuses an honest proof");
        return;
    }

    // shapes
    let arrays: Vec<&'static str> = match kind {
        Kind::Prm => vec!["commitment", "proof", "challenge"],
        Kind::Mod => vec!["challenge", "proof"],
        Kind::Dec | Kind::AffStar => vec!["commitments", "elements", "e"],
        _ => vec![],
    };
    if !arrays.is_empty() {
        let n = if matches!(kind, Kind::Prm | Kind::Mod) { S::SECURITY_BITS } else { S::SECURITY_PARAMETER };
        let resize = |f: &mut J, k: &str, len: usize, front: bool| {
            if f[k].is_array() {
                let a = f[k].as_array().unwrap().clone();
                let mut b: Vec<J> = if front { a.iter().rev().cycle().take(len).cloned().collect() } else { a.iter().cycle().take(len).cloned().collect() };
                if front {
                    b.reverse();
                }
                f[k] = J::Array(b);
            } else {
                let a = bits_of(&f[k]);
                let mut b: Vec<bool> = if front { a.iter().rev().cycle().take(len).copied().collect() } else { a.iter().cycle().take(len).copied().collect() };
                if front {
                    b.reverse();
                }
                f[k] = bits_json(&b, 0);
            }
        };
        let lens: Vec<usize> = (0..=n + 2).chain([2 * n, 3 * n]).filter(|l| *l != n).filter(|l| thorough() || *l < 3 || *l + 2 > n || (*l + idx as usize) % 4 == 0).collect();
        for mask in 1u32..(1 << arrays.len()) {
            for &len in &lens {
                let mut f = honest.clone();
                for (i, k) in arrays.iter().enumerate() {
                    if mask >> i & 1 == 1 {
                        resize(&mut f, k, len, idx & 1 == 1);
                    }
                }
                run.go("lengths", pubs, &f, &format!("arrays {:b} of length {} instead of {}", mask, len, n));
            }
        }
        // different lengths everywhere
        for _ in 0..8 {
            let mut f = honest.clone();
            for k in &arrays {
                let l = rng.next_u32() as usize % (n + 3);
                resize(&mut f, k, l, false);
            }
            run.go("lengths", pubs, &f, "random lengths");
        }
    }

    // ring elements outside the group, equation by equation
    let ring: Vec<String> = fields(kind)
        .into_iter()
        .filter(|x| matches!(x.1, Res(_) | Ct(_)))
        .map(|x| x.0.into())
        .chain(pub_fields(kind).into_iter().filter(|x| matches!(x.2, Res(_) | Ct(_))).map(|x| format!("{}{}", x.0, x.1)))
        .collect();
    let mut subsets: Vec<Vec<String>> = vec![];
    for x in &ring {
        subsets.push(vec![x.clone()]);
    }
    let gs = groups(kind);
    for g in &gs {
        subsets.push(g.iter().map(|x| (*x).into()).collect());
        // every proper sub-collection of a group
        for m in 1..(1u32 << g.len().min(6)) {
            subsets.push(g.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| (*x.1).into()).collect());
        }
    }
    for a in &gs {
        for b in &gs {
            subsets.push(a.iter().chain(b).map(|x| (*x).into()).collect());
        }
    }
    if !ring.is_empty() {
        subsets.push(ring.clone());
        for _ in 0..if thorough() { 400 } else { 60 } {
            let m = rng.next_u64() | rng.next_u64();
            subsets.push(ring.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| x.1.clone()).collect());
        }
    }
    let heavy = w.k0.n.bits() > 64 || matches!(kind, Kind::Dec | Kind::AffStar);
    for s in &subsets {
        for how in 0..3u32 {
            if heavy && !thorough() && rng.next_u32() % 3 != 0 {
                continue;
            }
            let (mut p, mut f) = (pubs.clone(), honest.clone());
            let reps = if rng.next_u32() % 4 == 0 { Some(rng.next_u32() as usize % 16) } else { None };
            for x in s {
                set_all(w, &mut p, &mut f, kind, x, how, reps, rng);
            }
            run.go("elements outside the group", &p, &f, &format!("{:?} = {} (repetition {:?})", s, ["zero", "multiple of a factor", "unreduced zero"][how as usize], reps));
        }
    }

    // extreme values, several at a time
    let fs = fields(kind);
    let ps = pub_fields(kind);
    for round in 0..if heavy { scale(40, 600) } else { scale(160, 3000) } {
        let (mut p, mut f) = (pubs.clone(), honest.clone());
        let mut what = vec![];
        let many = 1 + rng.next_u32() % [1u32, 2, 4, 40][(round % 4) as usize];
        for _ in 0..many {
            if !ps.is_empty() && rng.next_u32() % 4 == 0 {
                let (k, q, ty) = ps[rng.next_u32() as usize % ps.len()];
                let old = p[k].pointer(q).unwrap().clone();
                let v = extreme(w, &p, ty, &old, rng);
                what.push(format!("{}{}", k, q));
                *p.get_mut(k).unwrap().pointer_mut(q).unwrap() = v;
            } else {
                let (q, ty) = fs[rng.next_u32() as usize % fs.len()];
                if ty == Bits {
                    continue;
                }
                let qs = expand(&f, q);
                let one = rng.next_u32() as usize % qs.len();
                let all = rng.next_u32() % 2 == 0;
                for (i, q) in qs.iter().enumerate() {
                    if all || i == one {
                        let old = f.pointer(q).unwrap().clone();
                        let v = extreme(w, &p, ty, &old, rng);
                        *f.pointer_mut(q).unwrap() = v;
                    }
                }
                what.push(q.into());
            }
        }
        run.go("extreme values", &p, &f, &format!("{:?} #{}", what, round));
    }

    // everything degenerate at once
    for how in 0..6u32 {
        for full in [false, true] {
            let (mut p, mut f) = (pubs.clone(), honest.clone());
            for x in &ring {
                if full || x.starts_with('/') {
                    set_all(w, &mut p, &mut f, kind, x, how, None, rng);
                }
            }
            let zero = how % 2 == 0;
            for (q, ty) in &fs {
                for q in expand(&f, q) {
                    let old = f.pointer(&q).unwrap().clone();
                    let v = match ty {
                        Pt => to_json(&mk_sc::<S>(&w.curve, &Nat::zero()).mul_by_generator()),
                        Sc if q != "/e" && q != "/challenge" => sc_json::<S>(&w.curve, &Nat::zero()),
                        Sg if q != "/e" => signed_json(&Int::zero(), if zero { 1 } else { old["bound"].as_u64().unwrap() as u32 }),
                        Exp => uint_json::<S>(&Nat::zero()),
                        Bool => J::Bool(!zero),
                        _ => continue,
                    };
                    *f.pointer_mut(&q).unwrap() = v;
                }
            }
            run.go("everything degenerate", &p, &f, &format!("elements kind {}, statement too: {}", how, full));
        }
    }

    // other moduli in the statement
    let moduli: Vec<&'static str> = ["pk0", "pk1", "setup"].into_iter().filter(|k| pubs.contains_key(k)).collect();
    let bits = <Ui<S> as Bounded>::BITS;
    for k in &moduli {
        let n = modulus(pubs, k);
        let mut vals = vec![
            ("one", Nat::one()),
            ("three", Nat::from(3)),
            ("fifteen", Nat::from(15)),
            ("all ones", Nat::pow2(bits).sub(&Nat::one())),
            ("even", n.add(&Nat::one())),
            ("zero", Nat::zero()),
            ("power of two", Nat::pow2(bits - 1)),
            ("other", n.add(&Nat::from(2))),
        ];
        let pr = rand_prime(rng, 40);
        vals.push(("prime", pr.clone()));
        vals.push(("prime square", pr.mul(&pr)));
        for (name, v) in vals {
            if !v.fits(bits) {
                continue;
            }
            let (mut p, mut f) = (pubs.clone(), honest.clone());
            p.get_mut(k).unwrap()["modulus"] = uint_json::<S>(&v);
            run.go("modulus replaced", &p, &f, &format!("{} = {}", k, name));
            // with trivial elements, so that equations may hold
            for x in &ring {
                let how = if rng.next_u32() & 1 == 0 { 3 } else { 0 };
                let ty = fields(kind).iter().find(|y| y.0 == x).map(|y| y.1).or(ps.iter().find(|y| format!("{}{}", y.0, y.1) == *x).map(|y| y.2)).unwrap();
                if matches!(ty, Res(m) | Ct(m) if m == *k) {
                    set_all(w, &mut p, &mut f, kind, x, how, None, rng);
                }
            }
            run.go("modulus replaced", &p, &f, &format!("{} = {}, trivial elements", k, name));
        }
    }
}

pub fn main() -> i32 {
    let c = Ctx::new("C14");
    let rng = &mut rng_for("c14/world", 0);
    let wt = &World::<TestParams>::new(rng, true);
    let ww = &World::<Weak>::new(rng, true);
    let c = &c;
    type Job<'a> = std::boxed::Box<dyn Fn() + Sync + Send + 'a>;
    let mut jobs: Vec<Job> = vec![];
    for kind in KINDS {
        let slow = matches!(kind, Kind::Dec | Kind::AffStar | Kind::Mod | Kind::Prm);
        for i in 0..if slow { scale(10, 120) } else { scale(48, 600) } {
            jobs.push(std::boxed::Box::new(move || attack::<Weak>(c, "oblivious", ww, kind, i)));
        }
        for i in 0..if slow { scale(3, 30) } else { scale(8, 80) } {
            jobs.push(std::boxed::Box::new(move || attack::<TestParams>(c, "test", wt, kind, i)));
        }
    }
    let rng = &mut rng_for("c14/order", 0);
    for i in (1..jobs.len()).rev() {
        jobs.swap(i, rng.next_u64() as usize % (i + 1));
    }
    let jobs = &jobs;
    c.par(jobs.len() as u64, |j| jobs[j as usize]());
    c.finish(
        "an evaluation is one verification of a malformed or degenerate proof or statement; distinct = (parameters, proof, what was degenerate, case)",
        &["The oblivious parameter set differs from the test parameters only in a digest that ignores its input, which removes the challenge check and leaves the structural and algebraic checks; an accepted proof must be complete by the harness's own evaluation.",
          "Values that do not decode are counted but not judged here (C03). Arguments that the caller and not a peer supplies (matching keys of ciphertexts, the party count) are kept valid."],
    )
}
