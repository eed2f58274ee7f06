// C05: recoverable signatures against a first-principles ECDSA verifier and key recovery.
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use crate::curve::{Point, RecoverableSignature, Scalar};
use crate::dev::TestParams;
use crate::k256::{ProductionParams112, ProductionParams128};
use crate::params::*;

/// The curve point with abscissa x and the given parity (all curves here have p = 3 mod 4).
fn lift(cr: &CurveRef, x: &Nat, odd: bool) -> Aff {
    if *x >= cr.p {
        return None;
    }
    let rhs = x.mul(x).mul(x).add(&cr.a.mul(x)).add(&cr.b).rem(&cr.p);
    let y = rhs.powmod(&cr.p.add(&Nat::one()).shr(2), &cr.p);
    if y.mul(&y).rem(&cr.p) != rhs {
        return None;
    }
    let y = if y.is_odd() == odd { y } else { cr.p.sub(&y).rem(&cr.p) };
    Some((x.clone(), y))
}
fn mk_pt<P: SchemeParams>(cr: &CurveRef, a: &Aff) -> Point<P> {
    match a {
        None => Point::identity(),
        Some(_) => Point::try_from_compressed_bytes(&cr.compressed(a)).expect("a curve point"),
    }
}

struct Case {
    r: Nat,
    s: Nat,
    z: Nat,
    q: Aff,
    how: &'static str,
}

fn judge<P: SchemeParams>(c: &Ctx, cr: &CurveRef, name: &str, k: &Case) {
    let desc = || format!("{} {} r={:?} s={:?} z={:?} q={:?}", name, k.how, k.r, k.s, k.z, k.q);
    c.distinct(desc().as_bytes());
    let valid = cr.ecdsa_ok(&k.q, &k.z, &k.r, &k.s);
    c.count(&format!("{} {}", if valid { "valid" } else { "invalid" }, k.how));
    c.sample(k.how, desc());
    c.case(name, &desc, || {
        let got = RecoverableSignature::<P>::from_scalars(
            mk_sc::<P>(cr, &k.r),
            mk_sc::<P>(cr, &k.s),
            mk_pt::<P>(cr, &k.q),
            mk_sc::<P>(cr, &k.z),
        );
        let sig = match (got, valid) {
            (None, false) => return Ok(()),
            (None, true) => return Err("a valid signature was refused".into()),
            (Some(_), false) => return Err("an invalid signature was returned".into()),
            (Some(s), true) => s,
        };
        let (sig, rid) = sig.to_backend();
        let by = sig.to_bytes();
        let (r, s) = (Nat::from_be(&by[..cr.len]), Nat::from_be(&by[cr.len..]));
        if r != k.r || (s != k.s && s != cr.n.sub(&k.s)) {
            return Err(format!("another signature: r={:?} s={:?}", r, s));
        }
        if s > cr.n.shr(1) {
            return Err("high s".into());
        }
        if !cr.ecdsa_ok(&k.q, &k.z, &r, &s) {
            return Err("the normalized signature does not verify".into());
        }
        // recovery from first principles
        let x = if rid.is_x_reduced() { r.add(&cr.n) } else { r.clone() };
        let rp = lift(cr, &x, rid.is_y_odd());
        if rp.is_none() {
            return Err("the recovery id names no point".into());
        }
        c.count(&format!("recovery id {}", rid.to_byte()));
        let ri = r.invmod(&cr.n).unwrap();
        let q = cr.add(&cr.mul(&ri.mul(&s).rem(&cr.n), &rp), &cr.neg(&cr.mul(&ri.mul(&k.z).rem(&cr.n), &cr.gen())));
        if q != k.q {
            return Err(format!("the recovery id recovers {:?}", q));
        }
        Ok(())
    });
}

fn run<P: SchemeParams>(c: &Ctx, cr: &CurveRef, name: &str, idx: u64) {
    let mut rng = rng_for(&format!("c05{}", name), idx);
    let n = &cr.n;
    let one = Nat::one();
    let nz = |rng: &mut Rng| Nat::random_below(rng, &n.sub(&one)).add(&one);
    let z = match idx % 7 {
        0 => Nat::zero(),
        1 => n.sub(&one),
        _ => Nat::random_below(&mut rng, n),
    };
    let s = match idx % 11 {
        0 => n.shr(1),
        1 => n.shr(1).add(&one),
        2 => one.clone(),
        3 => n.sub(&one),
        _ => nz(&mut rng),
    };
    // a nonce point: an arbitrary curve point; in a third of the cases with abscissa >= n
    let (rp, how) = if idx % 3 == 0 {
        let mut rp = None;
        let span = cr.p.sub(n);
        while rp.is_none() {
            rp = lift(cr, &n.add(&Nat::random_below(&mut rng, &span)), rng.next_u32() & 1 == 1);
        }
        (rp, "nonce point with abscissa above the order")
    } else {
        (cr.mul(&nz(&mut rng), &cr.gen()), "ordinary nonce point")
    };
    let r = rp.clone().unwrap().0.rem(n);
    if r.is_zero() {
        return;
    }
    // the key for which (r, s) is a valid signature of z with this nonce point
    let ri = r.invmod(n).unwrap();
    let q = cr.add(&cr.mul(&ri.mul(&s).rem(n), &rp), &cr.neg(&cr.mul(&ri.mul(&z).rem(n), &cr.gen())));
    let base = |how| Case { r: r.clone(), s: s.clone(), z: z.clone(), q: q.clone(), how };
    judge::<P>(c, cr, name, &base(how));
    judge::<P>(c, cr, name, &Case { s: n.sub(&s), ..base("negated s") });
    match idx % 12 {
        0 => judge::<P>(c, cr, name, &Case { r: Nat::zero(), ..base("zero r") }),
        1 => judge::<P>(c, cr, name, &Case { s: Nat::zero(), ..base("zero s") }),
        2 => judge::<P>(c, cr, name, &Case { q: None, ..base("identity key") }),
        3 => judge::<P>(c, cr, name, &Case { q: cr.neg(&q), ..base("negated key") }),
        4 => judge::<P>(c, cr, name, &Case { z: z.add(&one).rem(n), ..base("other message") }),
        5 => judge::<P>(c, cr, name, &Case { z: n.sub(&z).rem(n), ..base("negated message") }),
        6 => judge::<P>(c, cr, name, &Case { r: r.add(&one).rem(n), ..base("other r") }),
        7 => judge::<P>(c, cr, name, &Case { s: s.add(&one).rem(n), ..base("other s") }),
        8 => judge::<P>(c, cr, name, &Case { r: s.clone(), s: r.clone(), ..base("swapped r and s") }),
        9 => judge::<P>(c, cr, name, &Case { q: cr.add(&q, &cr.gen()), ..base("shifted key") }),
        10 => judge::<P>(c, cr, name, &Case { r: n.sub(&r), ..base("negated r") }),
        _ => judge::<P>(c, cr, name, &Case { q: cr.mul(&nz(&mut rng), &cr.gen()), ..base("other key") }),
    }
    // a signature made the ordinary way with a known key and nonce
    let (d, k) = (nz(&mut rng), nz(&mut rng));
    let kr = cr.mul(&k, &cr.gen()).unwrap().0.rem(n);
    if !kr.is_zero() {
        let ks = k.invmod(n).unwrap().mul(&z.add(&kr.mul(&d))).rem(n);
        judge::<P>(c, cr, name, &Case { r: kr, s: ks, z, q: cr.mul(&d, &cr.gen()), how: "ordinary signature" });
    }
}

pub fn main() -> i32 {
    let c = Ctx::new("C05");
    let (t, k) = (CurveRef::tiny32(), CurveRef::secp256k1());
    c.par(scale(3000, 40_000), |i| run::<TestParams>(&c, &t, "tiny32", i));
    c.par(scale(100, 6_000), |i| run::<ProductionParams112>(&c, &k, "secp256k1/112", i));
    c.par(scale(20, 600), |i| run::<ProductionParams128>(&c, &k, "secp256k1/128", i));
    for id in 0..4 {
        if c.st.lock().unwrap().counts.get(&format!("recovery id {}", id)).map_or(true, |n| *n < 5) {
            c.inconclusive(format!("recovery id {} was hardly ever observed", id));
        }
    }
    c.finish(
        "constructed valid (nonce point of any abscissa, boundary s and message) and falsified (r, s, message, key) tuples; exact validity oracle, low-s, and recovery recomputed from first principles. Distinct = distinct tuples",
        &["the harness's affine curve reference and ECDSA equation"],
    )
}
