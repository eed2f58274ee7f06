// C10: honest proofs verify - every proof type, witness extremes, keys, contexts, party counts, serialization.
use std::format;
use std::prelude::rust_2021::*;
use std::vec::Vec;

use super::common::*;
use super::zkfix::*;
use crate::dev::TestParams;
use crate::k256::{ProductionParams112, ProductionParams128};
use crate::params::SchemeParams;

const PARTIES: [usize; 14] = [1, 2, 3, 4, 5, 7, 8, 9, 16, 17, 1000, 1 << 16, (1 << 19) + 1, 1 << 20];

fn one<S: SchemeParams>(c: &Ctx, pset: &str, w: &World<S>, kind: Kind, idx: u64, twice: bool) {
    let rng = &mut rng_for(&format!("c10/{}/{}", pset, kind.name()), idx);
    // the first cases walk through all the witness extremes
    let (xk, yk, sk) = if idx < 81 {
        ((idx % 9) as u32, (idx / 9) as u32, (idx % 64) as u32)
    } else {
        (rng.next_u32() % 9, rng.next_u32() % 9, rng.next_u32() % 64)
    };
    let parties = PARTIES[(idx % PARTIES.len() as u64) as usize];
    let case = Case::<S>::new(w, kind, rng, xk, yk, sk, parties);
    let aux = Aux::random(rng);
    let kname = format!("{} {}", pset, kind.name());
    c.count(&kname);
    c.distinct(format!("{}/{}", kname, case.describe()).as_bytes());
    c.sample(&kname, format!("x={:?} y={:?} parties={} aux={:?}", case.x, case.y, parties, aux));
    let sig = kname.clone();
    let proof = match case.prove(rng, &aux) {
        Ok(p) => p,
        Err(e) => return c.violation(&sig, "the prover refuses a true statement", format!("{} | aux={:?} | {}", e, aux, case.describe())),
    };
    let v = verify::<S>(kind, &case.pubs, &proof, &aux);
    if v != Verdict::Accept {
        return c.violation(&sig, "an honest proof does not verify", format!("{:?} | aux={:?} | {}", v, aux, case.describe()));
    }
    if twice {
        match cbor_trip::<S>(kind, &proof) {
            Ok(p2) => {
                let v = verify::<S>(kind, &case.pubs, &p2, &aux);
                if v != Verdict::Accept {
                    c.violation(&sig, "an honest proof does not verify after a binary round trip", format!("{:?} | {}", v, case.describe()));
                }
                if p2 != proof {
                    c.violation(&sig, "a proof changes in a binary round trip", case.describe());
                }
                c.count("verified after a binary round trip");
            }
            Err(e) => c.violation(&sig, "an honest proof does not survive serialization", format!("{} | {}", e, case.describe())),
        }
    }
}

fn run<S: SchemeParams>(c: &Ctx, pset: &str, worlds: u64, per_kind: &dyn Fn(Kind) -> u64, rp: bool) {
    let ws: Vec<std::sync::OnceLock<World<S>>> = (0..worlds).map(|_| Default::default()).collect();
    c.par(worlds, |i| {
        let rng = &mut rng_for(&format!("c10/world/{}", pset), i);
        let _ = ws[i as usize].set(World::new(rng, rp));
        c.count("key sets generated");
    });
    let mut jobs = std::vec![];
    for kind in KINDS {
        if kind == Kind::Prm && !rp {
            continue;
        }
        for i in 0..per_kind(kind) {
            jobs.push((kind, i));
        }
    }
    // the slow kinds first
    jobs.reverse();
    c.par(jobs.len() as u64, |j| {
        let (kind, i) = jobs[j as usize];
        if let Some(w) = ws[(i % worlds) as usize].get() {
            one::<S>(c, pset, w, kind, i, i % 3 == 0);
        }
    });
}

pub fn main() -> i32 {
    let c = Ctx::new("C10");
    run::<TestParams>(&c, "test", scale(8, 40), &|k| match k {
        Kind::Sch | Kind::Elog => scale(300, 20000),
        Kind::Enc | Kind::AffG | Kind::Fac => scale(150, 6000),
        _ => scale(90, 2500),
    }, true);
    run::<ProductionParams112>(&c, "production112", scale(2, 6), &|k| match k {
        Kind::Sch | Kind::Elog => scale(40, 2000),
        Kind::Enc | Kind::AffG | Kind::Fac => scale(3, 40),
        Kind::Mod => scale(1, 8),
        Kind::Prm => 0,
        _ => scale(0, 12),
    }, false);
    if thorough() {
        run::<ProductionParams128>(&c, "production128", 2, &|k| match k {
            Kind::Sch | Kind::Elog => 200,
            Kind::Enc | Kind::AffG | Kind::Fac => 9,
            Kind::Mod => 2,
            Kind::Prm => 0,
            _ => 2,
        }, false);
    }
    c.finish(
        "an evaluation is one statement proved by the library's prover and accepted by its verifier (or one more verification after a CBOR round trip, or one key set); distinct = different statements",
        &["Honest randomness: the range-proof masks are sampled by the library, so failures of probability 2^-32 (test parameters) are not expected in a run.",
          "prm proofs only with the test parameters (production-size safe primes take minutes); production sizes are sampled, not swept."],
    )
}
