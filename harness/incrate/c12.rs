// C12: responses outside the permitted ranges are rejected although every equation holds; out-of-range witnesses are
// refused or rejected.
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::zkfix::*;
use super::zkforge::*;
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::paillier::PaillierParams;
use crate::params::SchemeParams;

const PARTIES: [usize; 12] = [1, 2, 3, 4, 5, 8, 9, 16, 17, 100, 1 << 16, (1 << 16) + 1];

fn ceil_log2(n: usize) -> u32 {
    let mut c = 0;
    while (1usize << c) < n {
        c += 1;
    }
    c
}

struct Row {
    ptr: String,
    unit: Int,
    comp: Option<String>,
    bound: u32,
    name: &'static str,
}

fn rows<S: SchemeParams>(w: &World<S>, kind: Kind, parties: usize, reps: &[usize]) -> Vec<Row> {
    let int = |n: &Nat| Int::from(n.clone());
    let (n0, n1, ph0, q) = (int(&w.k0.n), int(&w.k1.n), int(&w.k0.phi), int(&w.curve.n));
    let phs = int(&w.setup.phi);
    let (l, lp, eps) = (S::L_BOUND, S::LP_BOUND, S::EPS_BOUND);
    let row = |ptr: String, unit: Int, comp: Option<&str>, bound, name| Row { ptr, unit, comp: comp.map(|x| x.into()), bound, name };
    let mut out = vec![];
    match kind {
        Kind::Enc => out.push(row("/z1".into(), n0.mul(&q), Some("/z3"), l + eps, "z1")),
        Kind::AffG => {
            out.push(row("/z1".into(), n0.mul(&ph0).mul(&q), Some("/z3"), l + eps, "z1"));
            out.push(row("/z2".into(), n0.mul(&n1).mul(&q), Some("/z4"), lp + eps, "z2"));
        }
        Kind::Dec => {
            for i in reps {
                out.push(row(format!("/elements/{}/z", i), n0.mul(&ph0).mul(&q), None, l + eps, "z"));
                out.push(row(format!("/elements/{}/w", i), n0.mul(&q), None, lp + eps + 1 + ceil_log2(parties) + eps, "w"));
            }
        }
        Kind::AffStar => {
            for i in reps {
                out.push(row(format!("/elements/{}/z", i), n0.mul(&ph0).mul(&q), None, l + eps, "z"));
                out.push(row(format!("/elements/{}/z_prime", i), n0.mul(&n1).mul(&q), None, lp + eps, "z_prime"));
            }
        }
        Kind::Fac => {
            let b = l + eps + Pp::<S>::PRIME_BITS - 2;
            out.push(row("/z1".into(), phs.clone(), None, b, "z1"));
            out.push(row("/z2".into(), phs, None, b, "z2"));
        }
        _ => {}
    }
    out
}

/// The v + k*unit next to the target, on the side of v.
fn place(v: &Int, unit: &Int, target: &Int) -> Int {
    // k = floor((target - v) / unit)
    let d = target.sub(v);
    let (k, _) = d.mag.divrem(&unit.mag);
    let k = Int::new(d.neg, k);
    v.add(&unit.mul(&k))
}

fn boundaries<S: SchemeParams>(c: &Ctx, pset: &str, kind: Kind, idx: u64, fac_world: Option<&World<S>>) {
    let rng = &mut rng_for(&format!("c12/{}/{}", pset, kind.name()), idx);
    let parties = PARTIES[(idx % 12) as usize];
    let small;
    let w = match fac_world {
        Some(w) => w,
        None => {
            small = World::<S>::small(rng, 14, 15, 20);
            &small
        }
    };
    let (xk, yk) = (rng.next_u32() % 9, rng.next_u32() % 9);
    let case = Case::<S>::new(w, kind, rng, xk, yk, 63, parties);
    let aux = Aux::random(rng);
    let Ok(p) = case.prove(rng, &aux) else {
        c.count("control: true statement NOT proved (see C10)");
        return;
    };
    if verify::<S>(kind, &case.pubs, &p, &aux) != Verdict::Accept {
        c.count("control: true statement NOT accepted (see C10)");
        return;
    }
    let nreps = p.get("elements").and_then(|x| x.as_array()).map_or(0, |x| x.len());
    let reps: Vec<usize> = if thorough() || nreps <= 4 {
        (0..nreps).collect()
    } else {
        vec![0, 1 + rng.next_u32() as usize % (nreps - 2), nreps - 1]
    };
    for r in rows(w, kind, parties, &reps) {
        let v = signed_of(p.pointer(&r.ptr).unwrap());
        let pow = Int::from(Nat::pow2(r.bound - 1));
        let two = |k: u32| Int::from(Nat::pow2(r.bound - 1 + k));
        let mut targets: Vec<(Int, &str)> = vec![];
        for neg in [false, true] {
            let s = |x: Int| if neg { x.neg() } else { x };
            targets.push((place(&v, &r.unit, &s(pow.sub(&r.unit.add(&Int::small(1))))), "just inside"));
            targets.push((place(&v, &r.unit, &s(pow.add(&r.unit))), "just outside"));
            targets.push((place(&v, &r.unit, &s(two(1))), "twice the bound"));
            targets.push((place(&v, &r.unit, &s(two(8))), "256 times the bound"));
            targets.push((place(&v, &r.unit, &s(two(33))), "2^33 times the bound"));
        }
        for (t, how) in targets {
            let mut q = p.clone();
            let d = t.sub(&v);
            add_signed(q.pointer_mut(&r.ptr).unwrap(), &d);
            if let Some(cp) = &r.comp {
                add_signed(q.pointer_mut(cp).unwrap(), &Int::from(w.setup.lambda.clone()).mul(&d).neg());
            }
            let inside = t.in_exp_range(r.bound);
            let verdict = verify::<S>(kind, &case.pubs, &q, &aux);
            let what = format!("{} {}: {}", pset, kind.name(), r.name);
            c.count(&what);
            c.distinct(format!("{}{}{}{}{}", what, r.ptr, how, t.neg, idx).as_bytes());
            c.sample(&what, format!("{} = {:?} ({}, bound 2^{}, inside: {}): {:?}", r.ptr, t, how, r.bound, inside, verdict));
            match (inside, &verdict) {
                (true, Verdict::Accept) => c.count("control: in-range equivalent accepted"),
                (true, v) => {
                    c.count("control: in-range equivalent NOT accepted");
                    c.note(format!("{}: in-range equivalent response ({}) gave {:?}", what, how, v));
                }
                (false, Verdict::Accept) => c.violation(
                    &what,
                    "a response outside its range verifies",
                    format!("{} = {:?} ({}), bound 2^{}, parties {} | N0={:?} N1={:?} N^={:?} | aux={:?} | {}", r.ptr, t, how, r.bound, parties, w.k0.n, w.k1.n, w.setup.n, aux, case.describe()),
                ),
                (false, _) => c.count("out of range rejected"),
            }
        }
    }
}

/// The library's own prover with a witness outside the range (plus slack).
fn witnesses<S: SchemeParams>(c: &Ctx, pset: &str, w: &World<S>, kind: Kind, idx: u64) {
    let rng = &mut rng_for(&format!("c12/w/{}/{}", pset, kind.name()), idx);
    let parties = PARTIES[(idx % 12) as usize];
    let max = <Ui<S> as crypto_bigint::Bounded>::BITS;
    let (lx, ly) = (S::L_BOUND + S::EPS_BOUND, y_exp::<S>(kind, parties) + S::EPS_BOUND);
    let extra = [1, 2, 9, 31][(idx % 4) as usize];
    let val = |rng: &mut Rng, bits: u32| {
        let m = Nat::pow2(bits).add(&Nat::random_bits(rng, bits));
        Int::new(rng.next_u32() & 1 == 1, m)
    };
    for which in ["x", "y"] {
        if which == "y" && kind == Kind::Enc {
            continue;
        }
        let (mut x, mut y) = (in_range(rng, S::L_BOUND, 8), in_range(rng, S::LP_BOUND, 8));
        if which == "x" {
            x = val(rng, (lx + extra).min(max - 3));
        } else {
            if ly + extra > max - 3 {
                continue;
            }
            y = val(rng, ly + extra);
        }
        let case = match no_panic(|| Case::<S>::with(w, kind, rng, x.clone(), y.clone(), 63, parties)) {
            Ok(k) => k,
            Err(_) => {
                c.count("out-of-range witness not representable");
                continue;
            }
        };
        let aux = Aux::random(rng);
        let what = format!("{} {}: witness {} out of range", pset, kind.name(), which);
        c.count(&what);
        c.distinct(format!("{}{}", what, idx).as_bytes());
        match case.prove(rng, &aux) {
            Err(_) => c.count("prover refused"),
            Ok(p) => {
                c.count("prover ran");
                if verify::<S>(kind, &case.pubs, &p, &aux) == Verdict::Accept {
                    // all challenge bits zero, or cancellation: must repeat
                    if let Ok(p) = case.prove(rng, &aux) {
                        if verify::<S>(kind, &case.pubs, &p, &aux) == Verdict::Accept {
                            c.violation(&what, "a proof with an out-of-range witness verifies", format!("aux={:?} {}", aux, case.describe()));
                        }
                    }
                }
            }
        }
    }
}

/// The library's own provers must not even start for witnesses just outside of the declared range: the masks only hide witnesses inside of it.
fn refusals<S: SchemeParams>(c: &Ctx, pset: &str, w: &World<S>, kind: Kind, idx: u64) {
    let rng = &mut rng_for(&format!("c12/r/{}/{}", pset, kind.name()), idx);
    let parties = PARTIES[(idx / 3 % 12) as usize];
    let max = <Ui<S> as crypto_bigint::Bounded>::BITS;
    for (which, e) in [("x", S::L_BOUND), ("y", y_exp::<S>(kind, parties))] {
        if (which == "y" && kind == Kind::Enc) || e + 3 > max - 3 {
            continue;
        }
        let half = Nat::pow2(e - 1);
        let v = match idx % 3 {
            0 => Int::from(half.add(&Nat::one())),
            1 => Int::new(true, half),
            _ => {
                let extra = rng.next_u32() % S::EPS_BOUND.min(max - 3 - e);
                Int::new(rng.next_u32() & 1 == 1, half.add(&Nat::one()).add(&Nat::random_bits(rng, e - 1 + extra)))
            }
        };
        let (mut x, mut y) = (in_range(rng, S::L_BOUND, 8), in_range(rng, S::LP_BOUND, 8));
        *(if which == "x" { &mut x } else { &mut y }) = v;
        let Ok(case) = no_panic(|| Case::<S>::with(w, kind, rng, x.clone(), y.clone(), 63, parties)) else {
            c.count("out-of-range witness not representable");
            continue;
        };
        let aux = Aux::random(rng);
        let what = format!("{} {}: prover with {} just outside of the declared range", pset, kind.name(), which);
        c.count(&what);
        c.distinct(format!("{}{}", what, idx).as_bytes());
        if case.prove(rng, &aux).is_ok() {
            c.violation(&what, "the prover does not refuse", format!("parties={} aux={:?} {}", parties, aux, case.describe()));
        }
    }
}

pub fn main() -> i32 {
    let c = Ctx::new("C12");
    const RANGED: [Kind; 5] = [Kind::Enc, Kind::AffG, Kind::Dec, Kind::AffStar, Kind::Fac];
    type S = TestParams;
    type P = ProductionParams112;
    type Job<'a> = std::boxed::Box<dyn Fn() + Sync + Send + 'a>;
    let mut jobs: Vec<Job> = vec![];
    // fac needs a real secret key; its setup is small
    let rng = &mut rng_for("c12/world", 0);
    let mut fw = vec![];
    for _ in 0..6 {
        let mut w = World::<S>::new(rng, false);
        w.setup = Setup::random(rng, 20);
        fw.push(w);
    }
    let ws: Vec<World<S>> = (0..4).map(|_| World::new(rng, false)).collect();
    let mut fp = World::<P>::new(rng, false);
    fp.setup = Setup::random(rng, 20);
    let (fw, ws, fp) = (&*fw.leak(), &*ws.leak(), &*std::boxed::Box::leak(std::boxed::Box::new(fp)));
    let c = &c;
    for kind in RANGED {
        let slow = matches!(kind, Kind::Dec | Kind::AffStar);
        for i in 0..if slow { scale(36, 400) } else { scale(150, 3000) } {
            jobs.push(std::boxed::Box::new(move || boundaries::<S>(c, "test", kind, i, if kind == Kind::Fac { Some(&fw[(i % 6) as usize]) } else { None })));
        }
        if kind != Kind::Fac {
            for i in 0..scale(24, 600) {
                jobs.push(std::boxed::Box::new(move || witnesses::<S>(c, "test", &ws[(i % 4) as usize], kind, i)));
            }
            for i in 0..scale(36, 600) {
                jobs.push(std::boxed::Box::new(move || refusals::<S>(c, "test", &ws[(i % 4) as usize], kind, i)));
            }
            for i in 0..scale(3, 36) {
                jobs.push(std::boxed::Box::new(move || refusals::<P>(c, "production112", fp, kind, i)));
            }
        }
        for i in 0..if slow { scale(0, 3) } else { scale(3, 30) } {
            jobs.push(std::boxed::Box::new(move || boundaries::<P>(c, "production112", kind, i, if kind == Kind::Fac { Some(fp) } else { None })));
        }
    }
    let rng = &mut rng_for("c12/order", 0);
    for i in (1..jobs.len()).rev() {
        jobs.swap(i, rng.next_u64() as usize % (i + 1));
    }
    let jobs = &jobs;
    c.par(jobs.len() as u64, |j| jobs[j as usize]());
    {
        let st = c.st.lock().unwrap();
        let ok = st.counts.get("control: in-range equivalent accepted").copied().unwrap_or(0);
        drop(st);
        if ok == 0 {
            c.inconclusive("no in-range equivalent response was accepted: the shifts do not keep the equations");
        }
    }
    c.finish(
        "an evaluation is one verification of a proof whose ranged response was moved (keeping every equation) to a chosen side of its bound, or one prover run with an out-of-range witness; distinct = (proof, response, position, case)",
        &["A range ±2^e is (-2^(e-1), 2^(e-1)], as the library defines it. The ranges are the documented ones: e = (L+EPS) and 2^(L'+EPS) for the affine and encryption proofs, 2^(L'+2 EPS+1+ceil log2 parties) for w of dec, 2^(L+EPS+PRIME_BITS-2) for fac.",
          "Equations are kept by shifting with multiples of group orders of small moduli whose factors the harness knows; the verifier's range checks do not depend on the size of the modulus.",
          "For witnesses within the scheme's slack (above 2^L, below 2^(L+EPS)) only the prover is judged: it refuses them."],
    )
}
