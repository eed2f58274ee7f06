// C08: arithmetic preconditions of every generated key and parameter set.
use std::collections::BTreeSet;
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::sync::Mutex;
use std::vec;

use super::bigref::*;
use super::common::*;
use super::util::*;
use crate::dev::TestParams;
use crate::k256::{ProductionParams112, ProductionParams128};
use crate::paillier::*;
use crate::params::*;
use crate::uint::*;
use crypto_bigint::modular::Retrieve;
use crypto_bigint::Bounded;

struct Seen {
    primes: Mutex<BTreeSet<std::vec::Vec<u8>>>,
    classes: Mutex<BTreeSet<String>>,
}

fn two_primes<P: PaillierParams>(p: &Nat, q: &Nat, safe: bool) -> Result<(), String> {
    for (n, x) in [("p", p), ("q", q)] {
        if x.bits() != P::PRIME_BITS {
            return Err(format!("{} has {} bits, not {}", n, x.bits(), P::PRIME_BITS));
        }
        if x.0[0] & 3 != 3 {
            return Err(format!("{} is not 3 mod 4", n));
        }
        if !x.is_prime() {
            return Err(format!("{} is not prime", n));
        }
        if safe && !x.shr(1).is_prime() {
            return Err(format!("{} is not a safe prime", n));
        }
    }
    if p == q {
        return Err("p = q".into());
    }
    let n = p.mul(q);
    // safe primes only have their top bit set, so a setup modulus may be one bit shorter
    if n.bits() > P::MODULUS_BITS || n.bits() < P::MODULUS_BITS - safe as u32 {
        return Err(format!("the modulus has {} bits, not {}", n.bits(), P::MODULUS_BITS));
    }
    let phi = p.sub(&Nat::one()).mul(&q.sub(&Nat::one()));
    if n.gcd(&phi) != Nat::one() {
        return Err("N and its totient share a factor".into());
    }
    Ok(())
}

fn eq(what: &str, got: &Nat, want: &Nat) -> Result<(), String> {
    if got != want {
        return Err(format!("{}: got {:?}, want {:?}", what, got, want));
    }
    Ok(())
}

fn paillier_key<P: PaillierParams>(c: &Ctx, seen: &Seen, name: &str, idx: u64) {
    let mut rng = ScriptRng::new(
        match idx {
            0 => vec![0; 4096],
            1 => vec![0xff; 4096],
            _ => vec![],
        },
        rng_for(&format!("c08{}", name), idx),
    );
    let made = no_panic(|| SecretKeyPaillierWire::<P>::random(&mut rng));
    let wire = match made {
        Ok(w) => w,
        Err(e) => return c.violation("generation", "generation", format!("{} #{}: panic {}", name, idx, e)),
    };
    let (p, q) = primes_of(&wire);
    if P::PRIME_BITS < 64 && p == q {
        return c.note(format!("{}: p = q skipped (miniature parameters only)", name));
    }
    let desc = || format!("{} p={:?} q={:?}", name, p, q);
    c.distinct(desc().as_bytes());
    c.sample("key", desc());
    c.case("blum-primes", &desc, || two_primes::<P>(&p, &q, false));
    if P::PRIME_BITS >= 128 {
        for x in [&p, &q] {
            if !seen.primes.lock().unwrap().insert(x.to_be()) {
                c.violation("repeated-prime", "repeated-prime", format!("{} generated twice", desc()));
            }
        }
    }
    seen.classes.lock().unwrap().insert(format!("{} p mod 8 = {}", name, p.0[0] & 7));
    seen.classes.lock().unwrap().insert(format!("{} q mod 8 = {}", name, q.0[0] & 7));
    seen.classes.lock().unwrap().insert(format!("{} p<q: {}", name, p < q));
    c.case("key-forms", &desc, || {
        let n = p.mul(&q);
        let phi = p.sub(&Nat::one()).mul(&q.sub(&Nat::one()));
        let mb = P::MODULUS_BITS;
        let pkw = wire.public_key();
        eq("wire public key", &bn(pkw.modulus()), &n)?;
        let sk = wire.clone().into_precomputed();
        let pk = sk.public_key();
        eq("public key", &bn(pk.modulus()), &n)?;
        eq("as_wire", &bn(pk.as_wire().modulus()), &n)?;
        eq("into_wire", &bn(pk.clone().into_wire().modulus()), &n)?;
        if *pk.as_wire() != pkw || pkw.clone().into_precomputed() != *pk {
            return Err("public key forms differ".into());
        }
        let s = pk.modulus_signed();
        if pval(&s) != Int::from(n.clone()) || s.bound() < n.bits() || s.bound() > mb {
            return Err("modulus_signed".into());
        }
        eq("modulus_nonzero", &bn(pk.modulus_nonzero().as_ref()), &n)?;
        eq("modulus_wide_nonzero", &bn(pk.modulus_wide_nonzero().as_ref()), &n)?;
        eq("N mod N^2", &bn(&pk.modulus_mod_modulus_squared().retrieve()), &n)?;
        if sval(&sk.p_signed()) != Int::from(p.clone()) || sval(&sk.q_signed()) != Int::from(q.clone()) {
            return Err("p_signed/q_signed".into());
        }
        if sk.p_signed().bound() < P::PRIME_BITS || sk.q_signed().bound() < P::PRIME_BITS {
            return Err("bounds of p, q".into());
        }
        eq("totient", &bn(sk.totient_wide_unsigned().expose_secret()), &phi)?;
        eq("inverse totient", &bn(&sk.inv_totient().expose_secret().retrieve()), &phi.invmod(&n).ok_or("no inverse")?)?;
        eq("inverse modulus", &bn(sk.inv_modulus().expose_secret()), &n.invmod(&phi).ok_or("no inverse")?)?;
        if !bn(sk.inv_modulus().expose_secret()).fits(sk.inv_modulus().bound()) {
            return Err("bound of the inverse modulus".into());
        }
        let (p2, q2) = primes_of(&sk.clone().into_wire());
        eq("p after round trip", &p2, &p)?;
        eq("q after round trip", &q2, &q)?;
        let back: SecretKeyPaillierWire<P> = from_cbor(&to_cbor(&wire))?;
        let (p3, q3) = primes_of(&back);
        eq("p after serialization", &p3, &p)?;
        eq("q after serialization", &q3, &q)?;
        Ok(())
    });
}

fn rp<P: PaillierParams>(c: &Ctx, seen: &Seen, name: &str, idx: u64) {
    let mut rng = rng_for(&format!("c08rp{}", name), idx);
    let sec = match no_panic(|| RPSecret::<P>::random(&mut rng)) {
        Ok(x) => x,
        Err(e) => return c.violation("generation", "generation", format!("RPSecret {} #{}: panic {}", name, idx, e)),
    };
    let n = bn(&sec.modulus());
    let phi = bn(sec.totient_nonzero().expose_secret().as_ref());
    // p + q = N + 1 - phi, (p - q)^2 = (p + q)^2 - 4N
    let sum = n.add(&Nat::one()).sub(&phi);
    let d2 = sum.mul(&sum).sub(&n.shl(2));
    let mut d = Nat::zero();
    for b in (0..d2.bits() / 2 + 2).rev() {
        let t = d.add(&Nat::pow2(b));
        if t.mul(&t) <= d2 {
            d = t;
        }
    }
    let (p, q) = (sum.add(&d).shr(1), sum.sub(&d).shr(1));
    if P::PRIME_BITS < 64 && p == q {
        return;
    }
    let lambda = bn(sec.lambda().expose_secret());
    let desc = || format!("{} p={:?} q={:?} lambda={:?}", name, p, q, lambda);
    c.distinct(desc().as_bytes());
    c.sample("ring-Pedersen setup", desc());
    c.case("safe-primes", &desc, || {
        if p.mul(&q) != n || d.mul(&d) != d2 {
            return Err("modulus and totient do not belong to a product of two primes".into());
        }
        two_primes::<P>(&p, &q, true)
    });
    if P::PRIME_BITS >= 128 {
        for x in [&p, &q] {
            if !seen.primes.lock().unwrap().insert(x.to_be()) {
                c.violation("repeated-prime", "repeated-prime", format!("{} generated twice", desc()));
            }
        }
        if !seen.primes.lock().unwrap().insert(lambda.to_be()) {
            c.violation("repeated-lambda", "repeated-lambda", desc());
        }
    }
    for round in 0..2 {
        c.case("setup", &desc, || {
            if !lambda.fits(sec.lambda().bound()) || lambda >= phi {
                return Err("lambda out of range".into());
            }
            let params = RPParams::<P>::random_with_secret(&mut rng, &sec);
            let j = to_json(&params.to_wire());
            let f = |k: &str| Nat::from_be(&unhex(j[k].as_str().unwrap()));
            eq("modulus", &bn(params.modulus()), &n)?;
            eq("wire modulus", &f("modulus"), &n)?;
            let (t, s) = (f("base_randomizer"), f("base_value"));
            eq("t forms", &bn(&params.base_randomizer().retrieve()), &t)?;
            eq("s forms", &bn(&params.base_value().retrieve()), &s)?;
            if t.gcd(&n) != Nat::one() || t >= n {
                return Err("t is not a unit".into());
            }
            if t.rem(&p).jacobi(&p) != 1 || t.rem(&q).jacobi(&q) != 1 {
                return Err("t is not a square".into());
            }
            eq("s", &s, &t.powmod(&lambda, &n))?;
            let again = params.to_wire().to_precomputed();
            eq("precomputed again: N", &bn(again.modulus()), &n)?;
            eq("precomputed again: t", &bn(&again.base_randomizer().retrieve()), &t)?;
            eq("precomputed again: s", &bn(&again.base_value().retrieve()), &s)?;
            if P::PRIME_BITS >= 32 && !seen.primes.lock().unwrap().insert(t.to_be()) {
                return Err("the base is the same in two setups".into());
            }
            Ok(())
        });
        let _ = round;
    }
    if P::PRIME_BITS <= 128 {
        c.case("setup-without-secret", &desc, || {
            let params = RPParams::<P>::random(&mut rng);
            let n = bn(params.modulus());
            if n.bits() + 1 < P::MODULUS_BITS || n.bits() > P::MODULUS_BITS || !n.is_odd() || n.is_prime() {
                return Err(format!("modulus {:?}", n));
            }
            for x in [params.base_randomizer(), params.base_value()] {
                let x = bn(&x.retrieve());
                if x.gcd(&n) != Nat::one() || x.jacobi(&n) != 1 {
                    return Err("a base is not a square unit".into());
                }
            }
            Ok(())
        });
    }
}

/// The inequalities of Appendix C.1 and of the range proofs, written out independently.
fn scheme<P: SchemeParams>(c: &Ctx, name: &str, order: &Nat, prime_bits: u32, security: usize) {
    let (l, lp, e) = (P::L_BOUND, P::LP_BOUND, P::EPS_BOUND);
    let k = order.bits();
    let pb = <P::Paillier as PaillierParams>::PRIME_BITS;
    let mb = <P::Paillier as PaillierParams>::MODULUS_BITS;
    let desc = || format!("{}: L={} L'={} EPS={} prime bits={} kappa={}", name, l, lp, e, pb, P::SECURITY_PARAMETER);
    c.sample("parameter set", desc());
    c.distinct(desc().as_bytes());
    c.case("parameter-set", &desc, || {
        let hu = <<P::Paillier as PaillierParams>::HalfUint as Bounded>::BITS;
        let u = <<P::Paillier as PaillierParams>::Uint as Bounded>::BITS;
        let w = <<P::Paillier as PaillierParams>::WideUint as Bounded>::BITS;
        let x = <P::ExtraWideUint as Bounded>::BITS;
        let checks = [
            ("kappa is the order's size", P::SECURITY_PARAMETER as u32 == k),
            ("curve order", order_of::<P>() == *order),
            ("L >= kappa", l >= k),
            ("EPS >= L + kappa", e >= l + k),
            ("L' >= 3L + EPS", lp >= 3 * l + e),
            ("log N >= L' + EPS + 21", mb >= lp + e + 21),
            ("2L + EPS = prime bits", 2 * l + e == pb),
            ("log N = 2 prime bits", mb == 2 * pb),
            ("prime size", pb == prime_bits),
            ("security bits", P::SECURITY_BITS == security),
            ("half", hu >= pb),
            ("uint", u >= mb && u >= hu),
            ("wide", w >= 2 * mb && w >= u),
            ("extra wide", x > 2 * mb + l + e),
        ];
        for (n, ok) in checks {
            if !ok {
                return Err(n.into());
            }
        }
        Ok(())
    });
}

pub fn main() -> i32 {
    let c = Ctx::new("C08");
    let seen = Seen { primes: Default::default(), classes: Default::default() };
    let tiny = Nat::from(0xffff0f07);
    let k256 = Nat::from_hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
    scheme::<TestParams>(&c, "TestParams", &tiny, 128, 16);
    scheme::<ProductionParams112>(&c, "ProductionParams112", &k256, 1024, 112);
    scheme::<ProductionParams128>(&c, "ProductionParams128", &k256, 1536, 128);
    type T<P> = <P as SchemeParams>::Paillier;
    c.par(scale(200, 4000), |i| paillier_key::<Tiny16>(&c, &seen, "16-bit primes", i));
    c.par(scale(300, 4000), |i| paillier_key::<Full64>(&c, &seen, "64-bit primes", i));
    c.par(scale(300, 6000), |i| paillier_key::<T<TestParams>>(&c, &seen, "TestParams", i));
    c.par(scale(16, 200), |i| paillier_key::<Mid256>(&c, &seen, "256-bit primes", i));
    c.par(scale(200, 2000), |i| rp::<Tiny16>(&c, &seen, "16-bit safe primes", i));
    c.par(scale(100, 2000), |i| rp::<Full64>(&c, &seen, "64-bit safe primes", i));
    c.par(scale(120, 2000), |i| rp::<T<TestParams>>(&c, &seen, "TestParams", i));
    c.par(scale(8, 60), |i| rp::<Mid256>(&c, &seen, "256-bit safe primes", i));
    c.par(scale(6, 60), |i| paillier_key::<T<ProductionParams112>>(&c, &seen, "ProductionParams112", i + 2));
    if thorough() {
        c.par(16, |i| paillier_key::<T<ProductionParams128>>(&c, &seen, "ProductionParams128", i + 2));
    }
    // every admissible residue class and order of primes shows up
    for name in ["16-bit primes", "64-bit primes", "TestParams"] {
        for cl in ["p mod 8 = 3", "p mod 8 = 7", "q mod 8 = 3", "q mod 8 = 7", "p<q: true", "p<q: false"] {
            let k = format!("{} {}", name, cl);
            c.count("prime-class");
            if !seen.classes.lock().unwrap().contains(&k) {
                c.violation("prime-class", "prime-class", format!("never generated: {}", k));
            }
        }
    }
    c.finish(
        "every generated Paillier key and ring-Pedersen setup: primality, Blum/safe form, exact sizes, coprimality, square unit t, s = t^lambda, and agreement of all forms of the key; parameter inequalities. Distinct = distinct keys and setups",
        &["Miller-Rabin in the harness", "p = q is skipped in the miniature parameter sets", "production-size safe primes take minutes each and are represented by 256-bit ones (same code)"],
    )
}
