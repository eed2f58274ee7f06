// C09: residue number system, square roots, exponentiation and commitments against plain modular arithmetic.
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec;

use super::bigref::*;
use super::common::*;
use super::util::*;
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::paillier::*;
use crate::params::SchemeParams;
use crate::tools::Secret;
use crate::uint::*;
use crypto_bigint::modular::Retrieve;
use crypto_bigint::subtle::Choice;
use crypto_bigint::{Bounded, Integer, Monty};

struct Key<P: PaillierParams> {
    sk: SecretKeyPaillier<P>,
    n: Nat,
    p: Nat,
    q: Nat,
}
fn key<P: PaillierParams>(rng: &mut Rng) -> Key<P> {
    loop {
        let wire = SecretKeyPaillierWire::<P>::random(rng);
        let (p, q) = primes_of(&wire);
        if p != q {
            return Key { sk: wire.into_precomputed(), n: p.mul(&q), p, q };
        }
    }
}
fn eq(what: &str, got: &Nat, want: &Nat) -> Result<(), String> {
    if got != want {
        return Err(format!("{}: got {:?}, want {:?}", what, got, want));
    }
    Ok(())
}
fn is_sq(x: &Nat, p: &Nat) -> bool {
    let x = x.rem(p);
    x.is_zero() || x.jacobi(p) == 1
}

/// All facts about one integer `x` (any value of `Uint`).
fn one<P: PaillierParams>(c: &Ctx, k: &Key<P>, x: &Nat, full: bool) -> Result<(), String> {
    let ux: P::Uint = nb(x);
    let (a, b) = k.sk.rns_split(&ux);
    let (va, vb) = (bn(&a.retrieve()), bn(&b.retrieve()));
    eq("split mod p", &va, &x.rem(&k.p))?;
    eq("split mod q", &vb, &x.rem(&k.q))?;
    eq("join of split", &bn(&k.sk.rns_join(&(a.clone(), b.clone()))), &x.rem(&k.n))?;
    let sq = is_sq(x, &k.p) && is_sq(x, &k.q);
    match k.sk.rns_sqrt(&(a, b)) {
        None if sq => return Err("no square root of a square".into()),
        Some(_) if !sq => return Err("square root of a non-square".into()),
        None => {}
        Some((ra, rb)) => {
            let j = bn(&k.sk.rns_join(&(ra.clone(), rb.clone())));
            let (ra, rb2) = (bn(&ra.retrieve()), bn(&rb.retrieve()));
            eq("join of the root's parts", &j, &crt(&ra, &rb2, k))?;
            eq("square of the root", &j.mul(&j).rem(&k.n), &x.rem(&k.n))?;
            if !is_sq(&ra, &k.p) || !is_sq(&rb2, &k.q) {
                return Err("the root is not itself a square".into());
            }
        }
    }
    if full {
        c.count("square-root facts");
    }
    Ok(())
}
fn crt<P: PaillierParams>(a: &Nat, b: &Nat, k: &Key<P>) -> Nat {
    // x = a + p * ((b - a) p^-1 mod q)
    let d = b.add(&k.q.mul(&k.p)).sub(a).rem(&k.q);
    a.add(&k.p.mul(&d.mul(&k.p.invmod(&k.q).unwrap()).rem(&k.q)))
}

/// Exactly one of ±y, ±wy has a fourth root.
fn quartic<P: PaillierParams>(k: &Key<P>, y: &Nat, w: &Nat) -> Result<(), String> {
    let mut found = 0;
    for neg in [false, true] {
        for tw in [false, true] {
            let mut z = y.clone();
            if tw {
                z = z.mul(w).rem(&k.n);
            }
            if neg {
                z = k.n.sub(&z);
            }
            let root = k.sk.rns_sqrt(&k.sk.rns_split(&nb::<P::Uint>(&z))).and_then(|r| k.sk.rns_sqrt(&r));
            if let Some(r) = root {
                found += 1;
                let r = bn(&k.sk.rns_join(&r));
                let r2 = r.mul(&r).rem(&k.n);
                eq("fourth power", &r2.mul(&r2).rem(&k.n), &z)?;
            }
        }
    }
    if found != 1 {
        return Err(format!("{} of the four twists have a fourth root", found));
    }
    Ok(())
}

fn crt_level<P: PaillierParams>(c: &Ctx, name: &str, keys: u64, cases: u64) {
    let one_ = Nat::one();
    c.par(keys, |i| {
        let mut rng = rng_for(&format!("c09{}", name), i);
        let k = key::<P>(&mut rng);
        let w = bn(&k.sk.random_nonsquare_residue(&mut rng));
        c.count(&format!("keys {}", name));
        for j in 0..cases {
            let x = match j {
                0 => Nat::zero(),
                1 => one_.clone(),
                2 => k.n.sub(&one_),
                3 => k.p.clone(),
                4 => k.q.clone(),
                5 => k.n.sub(&k.p),
                6 => k.n.clone(),
                7 => Nat::pow2(<P::Uint as Bounded>::BITS).sub(&one_),
                8 => k.n.add(&one_).rem(&Nat::pow2(<P::Uint as Bounded>::BITS)),
                9 => k.p.sub(&one_),
                10 => k.q.add(&one_),
                _ if j % 3 == 0 => {
                    let r = Nat::random_below(&mut rng, &k.n);
                    r.mul(&r).rem(&k.n)
                }
                _ if j % 17 == 1 => Nat::random_bits(&mut rng, <P::Uint as Bounded>::BITS),
                _ => Nat::random_below(&mut rng, &k.n),
            };
            let desc = || format!("{} p={:?} q={:?} x={:?}", name, k.p, k.q, x);
            c.distinct(desc().as_bytes());
            c.sample("residue", desc());
            c.case("split/join/sqrt", &desc, || one(c, &k, &x, true));
            if x < k.n && x.gcd(&k.n) == one_ {
                c.case("quartic", &desc, || quartic(&k, &x, &w));
            }
        }
        // joining arbitrary pairs: split of the crt value
        c.case("totient", &|| format!("{} p={:?} q={:?}", name, k.p, k.q), || {
            let x = Nat::random_below(&mut rng, &k.n);
            if x.gcd(&k.n) != Nat::one() {
                return Ok(());
            }
            let phi = bn(k.sk.totient_wide_unsigned().expose_secret());
            eq("totient", &phi, &k.p.sub(&one_).mul(&k.q.sub(&one_)))?;
            let pk = k.sk.public_key();
            let xm = nb::<P::Uint>(&x).to_montgomery(pk.monty_params_mod_n());
            let inv = bn(k.sk.inv_modulus().expose_secret());
            let r = xm.pow(k.sk.inv_modulus());
            eq("x^(N^-1 mod phi)", &bn(&r.retrieve()), &x.powmod(&inv, &k.n))?;
            eq("N-th root", &bn(&r.retrieve()).powmod(&k.n, &k.n), &x)?;
            eq("inverse totient", &bn(&k.sk.inv_totient().expose_secret().retrieve()).mulmod(&phi, &k.n), &one_)?;
            Ok(())
        });
    });
}

fn exhaustive(c: &Ctx, step: u64) {
    c.par(12, |part| {
        let mut rng = rng_for("c09x", part);
        let k = key::<Tiny8>(&mut rng);
        let w = bn(&k.sk.random_nonsquare_residue(&mut rng));
        let n = k.n.0[0];
        let mut x = rng.next_u64() % step;
        let mut squares = 0;
        while x < n {
            let nx = Nat::from(x);
            c.count("exhaustive residues");
            if let Err(e) = one(c, &k, &nx, false) {
                return c.violation("exhaustive", "exhaustive", format!("p={:?} q={:?} x={}: {}", k.p, k.q, x, e));
            }
            if nx.gcd(&k.n) == Nat::one() {
                squares += (is_sq(&nx, &k.p) && is_sq(&nx, &k.q)) as u64;
                if let Err(e) = quartic(&k, &nx, &w) {
                    return c.violation("quartic", "quartic", format!("p={:?} q={:?} y={} w={:?}: {}", k.p, k.q, x, w, e));
                }
            }
            x += step;
        }
        c.count_n("exhaustive squares", squares);
    });
}

fn exp_value(rng: &mut Rng, bits: u32, kind: u32) -> Int {
    let mag = match kind % 8 {
        0 => Nat::zero(),
        1 => Nat::one(),
        2 => Nat::pow2(bits).sub(&Nat::one()),
        3 => Nat::pow2(bits - 1),
        4 => Nat::from(2),
        _ => {
            let b = 1 + rng.next_u32() % bits;
            Nat::random_bits(rng, b)
        }
    };
    Int::new(rng.next_u32() & 1 == 1, mag)
}

/// Commitments over an arbitrary odd modulus with unit bases.
fn commitments<P: PaillierParams>(c: &Ctx, name: &str, idx: u64) {
    let mut rng = rng_for(&format!("c09rp{}", name), idx);
    let ubits = <P::Uint as Bounded>::BITS;
    let mbits = P::MODULUS_BITS;
    let n = match idx % 4 {
        0 => Nat::pow2(mbits).sub(&Nat::one()),
        1 => Nat::pow2(mbits - 1).add(&Nat::one()),
        _ => {
            let x = Nat::random_bits(&mut rng, mbits);
            if x.is_odd() { x } else { x.add(&Nat::one()) }
        }
    };
    if n <= Nat::from(9) {
        return;
    }
    let unit = |rng: &mut Rng, k: u32| match k % 5 {
        0 => Nat::one(),
        1 => n.sub(&Nat::one()),
        _ => loop {
            let v = Nat::random_below(rng, &n);
            if v.gcd(&n) == Nat::one() {
                return v;
            }
        },
    };
    let (k1, k2) = (rng.next_u32(), rng.next_u32());
    let (t, s) = (unit(&mut rng, k1), unit(&mut rng, k2));
    let params = rp_wire::<P>(&n, &t, &s).to_precomputed();
    let (ub, wb) = (ubits - 1, <P::WideUint as Bounded>::BITS - 1);
    let (k1, k2, k3) = (rng.next_u32(), rng.next_u32(), rng.next_u32());
    let (v, r, e) = (exp_value(&mut rng, ub, k1), exp_value(&mut rng, wb, k2), exp_value(&mut rng, ub, k3));
    let desc = || format!("{} N={:?} t={:?} s={:?} v={:?} r={:?} e={:?}", name, n, t, s, v, r, e);
    c.distinct(desc().as_bytes());
    c.sample("commitment", desc());
    let val = |w: RPCommitmentWire<P>| Nat::from_be(&unhex(to_json(&w).as_str().unwrap()));
    c.case("commitment", &desc, || {
        let sv = v.exp_of(&s, &n).unwrap();
        let tr = r.exp_of(&t, &n).unwrap();
        let want = sv.mul(&tr).rem(&n);
        // the bound may be any admissible one
        let (vb, rb) = (v.mag.bits().max(1).max(rng.next_u32() % ub), r.mag.bits().max(1).max(rng.next_u32() % wb));
        let (vs, vp) = (mk_secret::<P::Uint>(&v, vb), mk_public::<P::Uint>(&v, vb));
        let (rs, rp) = (mk_secret::<P::WideUint>(&r, rb), mk_public::<P::WideUint>(&r, rb));
        let cs = params.commit(&vs, &rs);
        eq("secret/secret wide", &val(cs.to_wire()), &want)?;
        eq("public/public wide", &val(params.commit(&vp, &rp).to_wire()), &want)?;
        eq("secret/public wide", &val(params.commit(&vs, &rp).to_wire()), &want)?;
        let swapped = r.exp_of(&s, &n).unwrap().mul(&v.exp_of(&t, &n).unwrap()).rem(&n);
        eq("wide value", &val(params.commit(&rs, &vs).to_wire()), &swapped)?;
        eq("zero value", &val(params.commit_zero_value(&rs).to_wire()), &tr)?;
        eq("zero randomizer", &val(params.commit_zero_randomizer(&vs).to_wire()), &sv)?;
        let (es, ep) = (mk_secret::<P::Uint>(&e, ub), mk_public::<P::Uint>(&e, ub));
        let ce = e.exp_of(&want, &n).unwrap();
        eq("power", &val(cs.pow(&es).to_wire()), &ce)?;
        eq("public power", &val(cs.pow(&ep).to_wire()), &ce)?;
        eq("wide power", &val(cs.pow(&rs).to_wire()), &r.exp_of(&want, &n).unwrap())?;
        let other = params.commit_zero_value(&vs);
        let ov = v.exp_of(&t, &n).unwrap();
        eq("product", &val((&cs * &other).to_wire()), &want.mul(&ov).rem(&n))?;
        let back = cs.to_wire().to_precomputed(&params);
        if back != cs || (back == other) != (ov == want) {
            return Err("commitment equality or wire round trip".into());
        }
        Ok(())
    });
    c.case("exponentiation", &desc, || {
        let x = nb::<P::Uint>(&t).to_montgomery(params.monty_params_mod_n());
        let eb = e.mag.bits().max(1).max(rng.next_u32() % ub);
        let want = e.exp_of(&t, &n).unwrap();
        eq("secret signed", &bn(&x.pow(&mk_secret::<P::Uint>(&e, eb)).retrieve()), &want)?;
        eq("public signed", &bn(&x.pow(&mk_public::<P::Uint>(&e, eb)).retrieve()), &want)?;
        let un: SecretUnsigned<P::Uint> =
            Option::from(SecretUnsigned::new(Secret::init_with(|| nb::<P::Uint>(&e.mag)), eb)).ok_or("bound")?;
        eq("secret unsigned", &bn(&x.pow(&un).retrieve()), &t.powmod(&e.mag, &n))?;
        eq("of a secret base", &bn(Secret::init_with(|| x.clone()).pow(&mk_secret::<P::Uint>(&e, eb)).retrieve().expose_secret()), &want)?;
        eq("wide exponent", &bn(&x.pow(&mk_secret::<P::WideUint>(&r, wb)).retrieve()), &r.exp_of(&t, &n).unwrap())?;
        let uw = un.to_wide::<P::WideUint>();
        eq("widened exponent", &bn(&x.pow(&uw).retrieve()), &t.powmod(&e.mag, &n))?;
        // montgomery conversion reduces any value
        let big = Nat::random_bits(&mut rng, ubits);
        eq("to_montgomery", &bn(&nb::<P::Uint>(&big).to_montgomery(params.monty_params_mod_n()).retrieve()), &big.rem(&n))?;
        let _ = Choice::from(0);
        Ok(())
    });
}

pub fn main() -> i32 {
    let c = Ctx::new("C09");
    type T<P> = <P as SchemeParams>::Paillier;
    exhaustive(&c, scale(16, 1));
    crt_level::<Tiny8>(&c, "8-bit primes", scale(16, 100), 120);
    crt_level::<Tiny32>(&c, "32-bit primes", scale(32, 400), 120);
    crt_level::<Full64>(&c, "64-bit primes", scale(32, 400), 120);
    crt_level::<T<TestParams>>(&c, "128-bit primes", scale(24, 400), 80);
    crt_level::<T<ProductionParams112>>(&c, "1024-bit primes", scale(2, 24), scale(14, 30));
    c.par(scale(2000, 40_000), |i| commitments::<Tiny12>(&c, "24-bit modulus", i));
    c.par(scale(2000, 40_000), |i| commitments::<Full64>(&c, "128-bit modulus", i));
    c.par(scale(600, 10_000), |i| commitments::<T<TestParams>>(&c, "256-bit modulus", i));
    c.par(scale(8, 100), |i| commitments::<T<ProductionParams112>>(&c, "2048-bit modulus", i));
    c.finish(
        "residues (0, 1, N-1, multiples of p and q, all four residue classes, all of [0,N) for 8-bit primes) through split/join/sqrt/fourth roots; commitments and exponentiations with signed boundary exponents over arbitrary odd moduli; compared with plain modular arithmetic. Distinct = distinct (key, residue) and (setup, exponents)",
        &["the harness's big-integer reference", "p = q is skipped (possible only in the miniature parameter sets)"],
    )
}
