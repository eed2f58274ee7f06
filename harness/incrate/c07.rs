// C07: Paillier encryption, decryption, randomizers and homomorphic operations against big-integer Paillier.
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::util::*;
use crate::dev::PaillierTest;
use crate::k256::ProductionParams112;
use crate::paillier::*;
use crate::params::SchemeParams;
use crate::uint::*;
use crypto_bigint::Bounded;

struct Key<P: PaillierParams> {
    sk: SecretKeyPaillier<P>,
    n: Nat,
    n2: Nat,
    p: Nat,
    q: Nat,
}

/// Primes of exactly the scheme's size, 3 mod 4, top two bits set, from one end of the range.
fn end_prime<P: PaillierParams>(top: bool, skip: u32) -> Nat {
    let b = P::PRIME_BITS;
    let mut x = if top { Nat::pow2(b).sub(&Nat::one()) } else { Nat::from(3).shl(b - 2).add(&Nat::from(3)) };
    let mut k = 0;
    loop {
        if x.is_prime() {
            if k == skip {
                return x;
            }
            k += 1;
        }
        x = if top { x.sub(&Nat::from(4)) } else { x.add(&Nat::from(4)) };
    }
}

fn key<P: PaillierParams>(rng: &mut Rng, idx: u64) -> Option<Key<P>> {
    let wire = match idx {
        0 if P::PRIME_BITS <= 256 => sk_from_primes::<P>(&end_prime::<P>(true, 0), &end_prime::<P>(true, 1)).ok()?,
        1 if P::PRIME_BITS <= 256 => sk_from_primes::<P>(&end_prime::<P>(false, 0), &end_prime::<P>(true, 0)).ok()?,
        _ => SecretKeyPaillierWire::<P>::random(rng),
    };
    let (p, q) = primes_of(&wire);
    if p == q {
        return None;
    }
    let n = p.mul(&q);
    let n2 = n.mul(&n);
    Some(Key { sk: wire.into_precomputed(), n, n2, p, q })
}

fn ct_wire<P: PaillierParams>(v: &Nat) -> CiphertextWire<P> {
    let l = <P::WideUint as Bounded>::BYTES;
    from_json(&serde_json::json!({"ciphertext": hex0x(&v.to_be_padded(l)), "phantom": null})).expect("well-formed")
}
fn masked<P: PaillierParams>(v: &Nat) -> MaskedRandomizer<P> {
    from_json(&serde_json::json!(hex0x(&v.to_be_padded(<P::Uint as Bounded>::BYTES)))).expect("well-formed")
}
fn masked_val<P: PaillierParams>(m: &MaskedRandomizer<P>) -> Nat {
    Nat::from_be(&unhex(to_json(m).as_str().unwrap()))
}
/// The value of a randomizer: r^0 * r.
fn rnd_val<P: PaillierParams>(r: &Randomizer<P>) -> Nat {
    masked_val(&r.to_masked(r, &PublicSigned::zero()))
}
fn ct_val<P: PaillierParams>(c: &Ciphertext<P>) -> Nat {
    Nat::from_be(&unhex(to_json(&c.to_wire())["ciphertext"].as_str().unwrap()))
}

impl<P: PaillierParams> Key<P> {
    fn enc(&self, m: &Int, r: &Nat) -> Nat {
        // (1+N)^m by the binomial theorem: 1 + mN mod N^2
        let g = Nat::one().add(&m.modulo(&self.n).mul(&self.n)).rem(&self.n2);
        g.mul(&r.powmod(&self.n, &self.n2)).rem(&self.n2)
    }
    /// The same without the shortcut.
    fn enc_slow(&self, m: &Int, r: &Nat) -> Nat {
        let g = m.exp_of(&self.n.add(&Nat::one()), &self.n2).unwrap();
        g.mul(&r.powmod(&self.n, &self.n2)).rem(&self.n2)
    }
    fn centered(&self, m: &Int) -> Int {
        let x = m.modulo(&self.n);
        if x > self.n.shr(1) {
            Int::new(true, self.n.sub(&x))
        } else {
            Int::from(x)
        }
    }
    fn unit(&self, rng: &mut Rng, kind: u32) -> Nat {
        match kind % 6 {
            0 => Nat::one(),
            1 => self.n.sub(&Nat::one()),
            2 => Nat::from(2),
            _ => loop {
                let v = Nat::random_below(rng, &self.n);
                if v.gcd(&self.n) == Nat::one() {
                    return v;
                }
            },
        }
    }
    /// A randomizer with a chosen value: the one extracted from r^N.
    fn randomizer(&self, r: &Nat) -> Randomizer<P> {
        ct_wire::<P>(&r.powmod(&self.n, &self.n2)).to_precomputed(self.sk.public_key()).derive_randomizer(&self.sk)
    }
    fn plain(&self, rng: &mut Rng, bits: u32, kind: u32) -> Int {
        let half = self.n.shr(1);
        let mag = match kind % 13 {
            0 => Nat::zero(),
            1 => Nat::one(),
            2 => half.clone(),
            3 => half.add(&Nat::one()),
            4 => self.n.clone(),
            5 => self.n.sub(&Nat::one()),
            6 => self.n.add(&Nat::one()),
            7 => Nat::pow2(bits).sub(&Nat::one()),
            8 => self.p.clone(),
            9 => {
                let b = rng.next_u32() % bits;
                Nat::random_bits(rng, b + 1)
            }
            10 => self.q.mul(&Nat::from(2)),
            _ => Nat::random_below(rng, &half),
        };
        let mag = if mag.fits(bits) { mag } else { mag.rem(&Nat::pow2(bits)) };
        Int::new(rng.next_u32() & 1 == 1, mag)
    }
}

fn expect(what: &str, got: &Nat, want: &Nat) -> Result<(), String> {
    if got != want {
        return Err(format!("{}: got {:?}, want {:?}", what, got, want));
    }
    Ok(())
}

fn encdec<P: PaillierParams>(c: &Ctx, k: &Key<P>, name: &str, idx: u64) {
    let mut rng = rng_for(&format!("c07e{}{:?}", name, k.n), idx);
    let pk = k.sk.public_key();
    let (ub, wb) = (<P::Uint as Bounded>::BITS - 1, <P::WideUint as Bounded>::BITS - 1);
    let bound = if rng.next_u32() % 3 == 0 { ub } else { ub.min(k.n.bits()) };
    let m = k.plain(&mut rng, bound, idx as u32);
    let w = k.plain(&mut rng, wb, (idx / 3) as u32);
    let r = k.unit(&mut rng, (idx / 13) as u32);
    let desc = || format!("{} p={:?} q={:?} m={:?} wide m={:?} r={:?}", name, k.p, k.q, m, w, r);
    c.distinct(desc().as_bytes());
    c.sample("encryption", desc());
    let rho = k.randomizer(&r);
    c.case("randomizer-extraction", &desc, || expect("randomizer", &rnd_val(&rho), &r));
    let check = |ct: &Ciphertext<P>, m: &Int, r: &Nat| -> Result<(), String> {
        let want = k.enc(m, r);
        expect("ciphertext", &ct_val(ct), &want)?;
        let d = ct.decrypt(&k.sk);
        if sval(&d) != k.centered(m) || !sval(&d).mag.fits(d.bound()) {
            return Err(format!("decrypts to {:?}, want {:?}", sval(&d), k.centered(m)));
        }
        expect("derived randomizer", &rnd_val(&ct.derive_randomizer(&k.sk)), r)?;
        let ct2 = ct.to_wire().to_precomputed(pk);
        if ct2 != *ct || ct.public_key() != pk {
            return Err("wire round trip".into());
        }
        Ok(())
    };
    c.case("encrypt-secret", &desc, || {
        let ct = Ciphertext::<P>::new_with_randomizer(pk, &mk_secret(&m, bound), &rho);
        if idx % 5 == 0 {
            expect("ciphertext by plain exponentiation", &ct_val(&ct), &k.enc_slow(&m, &r))?;
        }
        check(&ct, &m, &r)
    });
    c.case("encrypt-secret-wide", &desc, || check(&Ciphertext::<P>::new_wide_with_randomizer(pk, &mk_secret(&w, wb), &rho), &w, &r));
    let mr = masked::<P>(&r);
    c.case("encrypt-public", &desc, || check(&Ciphertext::<P>::new_public_with_randomizer(pk, &mk_public(&m, bound), &mr), &m, &r));
    c.case("encrypt-public-wide", &desc, || check(&Ciphertext::<P>::new_public_wide_with_randomizer(pk, &mk_public(&w, wb), &mr), &w, &r));
    c.case("mask-randomizer", &desc, || {
        let s = k.unit(&mut rng, (idx / 7) as u32);
        let sigma = k.randomizer(&s);
        let e = k.plain(&mut rng, ub, (idx / 5) as u32);
        let got = masked_val(&rho.to_masked(&sigma, &mk_public(&e, ub)));
        let want = e.exp_of(&r, &k.n).unwrap().mul(&s).rem(&k.n);
        expect("masked randomizer", &got, &want)
    });
}

/// A random sequence of homomorphic operations with plaintext, randomizer and exact ciphertext tracked.
fn sequence<P: PaillierParams>(c: &Ctx, k: &Key<P>, name: &str, idx: u64, len: u32) {
    let mut rng = rng_for(&format!("c07h{}{:?}", name, k.n), idx);
    let pk = k.sk.public_key();
    let (ub, wb) = (<P::Uint as Bounded>::BITS - 1, <P::WideUint as Bounded>::BITS - 1);
    let mut log: Vec<String> = vec![];
    let mut fresh = |rng: &mut Rng| {
        let m = { let b = ub.min(k.n.bits() + 1); let kk = rng.next_u32(); k.plain(rng, b, kk) };
        let kk = rng.next_u32();
        let r = k.unit(rng, kk);
        let ct = Ciphertext::<P>::new_with_randomizer(pk, &mk_secret(&m, ub), &k.randomizer(&r));
        (ct, m, r)
    };
    let (mut ct, mut m, mut r) = fresh(&mut rng);
    log.push(format!("{} N={:?}: enc({:?};{:?})", name, k.n, m, r));
    let fail = |what: String, log: &Vec<String>| c.violation("homomorphic", "homomorphic", format!("{}: {}", what, log.join(" ")));
    for _ in 0..len {
        let op = rng.next_u32() % 9;
        let res = no_panic(|| match op {
            0..=3 => {
                let (c2, m2, r2) = fresh(&mut rng);
                let ri = r2.invmod(&k.n).unwrap();
                log.push(format!("op{}({:?};{:?})", op, m2, r2));
                match op {
                    0 => (ct.clone() + c2, m.add(&m2), r.mulmod(&r2, &k.n)),
                    1 => (ct.clone() + &c2, m.add(&m2), r.mulmod(&r2, &k.n)),
                    2 => (&ct + &c2, m.add(&m2), r.mulmod(&r2, &k.n)),
                    _ => (ct.clone() - &c2, m.sub(&m2), r.mulmod(&ri, &k.n)),
                }
            }
            _ => {
                let b = if op % 2 == 0 { ub } else { wb };
                let kk = rng.next_u32();
                let e = k.plain(&mut rng, b, kk);
                log.push(format!("op{}*{:?}", op, e));
                let m2 = m.mul(&e);
                let r2 = e.exp_of(&r, &k.n).unwrap();
                match op {
                    4 => (&ct * &mk_secret::<P::Uint>(&e, ub), m2, r2),
                    5 => (&ct * &mk_secret::<P::WideUint>(&e, wb), m2, r2),
                    6 => (ct.clone() * &mk_public::<P::Uint>(&e, ub), m2, r2),
                    7 => (ct.clone() * &mk_public::<P::WideUint>(&e, wb), m2, r2),
                    _ => (ct.clone() * &mk_secret::<P::Uint>(&e, ub), m2, r2),
                }
            }
        });
        c.count("homomorphic-operation");
        c.distinct(log.join("").as_bytes());
        match res {
            Err(p) => return fail(format!("panic {}", p), &log),
            Ok((a, b, d)) => {
                ct = a;
                m = k.centered(&b);
                r = d;
            }
        }
        let got = ct_val(&ct);
        let want = k.enc(&m, &r);
        if got != want {
            return fail(format!("ciphertext {:?}, want {:?}", got, want), &log);
        }
        let d = sval(&ct.decrypt(&k.sk));
        if d != m {
            return fail(format!("decrypts to {:?}, want {:?}", d, m), &log);
        }
        let dr = rnd_val(&ct.derive_randomizer(&k.sk));
        if dr != r {
            return fail(format!("randomizer {:?}, want {:?}", dr, r), &log);
        }
    }
    c.sample("operation sequence", log.join(" "));
}

fn level<P: PaillierParams>(c: &Ctx, name: &str, keys: u64, per_key: u64, seqs: u64) {
    c.par(keys, |i| {
        let mut rng = rng_for(&format!("c07k{}", name), i);
        if let Some(k) = key::<P>(&mut rng, i) {
            for j in 0..per_key {
                encdec(c, &k, name, j);
            }
            for j in 0..seqs {
                sequence(c, &k, name, j, 6);
            }
            c.count_n(&format!("keys {}", name), 1);
        }
    });
}

/// What belongs to another key must not be decrypted, opened or combined.
fn mixed<P: PaillierParams>(c: &Ctx, name: &str, idx: u64) {
    let mut rng = rng_for(&format!("c07m{}", name), idx);
    let (Some(k1), Some(k2)) = (key::<P>(&mut rng, idx % 3), key::<P>(&mut rng, 2)) else { return };
    if k1.n == k2.n {
        return;
    }
    let mut ct = |k: &Key<P>| {
        let m = k.plain(&mut rng, k.n.bits() - 1, 9);
        let r = k.unit(&mut rng, 5);
        Ciphertext::<P>::new_with_randomizer(k.sk.public_key(), &mk_secret(&m, <P::Uint as Bounded>::BITS - 1), &k.randomizer(&r))
    };
    let (a, a2, b) = (ct(&k1), ct(&k1), ct(&k2));
    let input = || format!("{} N1={:?} N2={:?}", name, k1.n, k2.n);
    for same in [true, false] {
        let (sk, o) = if same { (&k1.sk, &a2) } else { (&k2.sk, &b) };
        let ops: [(&str, &dyn Fn()); 7] = [
            ("decrypt", &|| drop(a.decrypt(sk))),
            ("derive_randomizer", &|| drop(a.derive_randomizer(sk))),
            ("x + y", &|| drop(a.clone() + o.clone())),
            ("x + &y", &|| drop(a.clone() + o)),
            ("&x + &y", &|| drop(&a + o)),
            ("x - &y", &|| drop(a.clone() - o)),
            ("keys", &|| assert!(a.public_key() == o.public_key())),
        ];
        for (what, f) in ops {
            c.case(&format!("{}: {} of {} keys", name, what, if same { "the same" } else { "different" }), &input, || match no_panic(f).is_ok() == same {
                true => Ok(()),
                false if same => Err("refused".into()),
                false => Err("not refused".into()),
            });
        }
    }
    c.distinct(input().as_bytes());
}

/// Every plaintext and several units of a tiny key.
fn exhaustive(c: &Ctx, step: u64) {
    c.par(16, |part| {
        let mut rng = rng_for("c07x", part);
        let k = loop {
            if let Some(k) = key::<Tiny8>(&mut rng, 2 + part) {
                break k;
            }
        };
        let pk = k.sk.public_key();
        let n = k.n.0[0];
        let mut m = rng.next_u64() % step;
        while m < n {
            let im = k.centered(&Int::from(Nat::from(m)));
            let kk = rng.next_u32();
            let r = k.unit(&mut rng, kk);
            let ct = Ciphertext::<Tiny8>::new_with_randomizer(pk, &mk_secret(&im, 16), &k.randomizer(&r));
            c.count("exhaustive plaintexts");
            if ct_val(&ct) != k.enc(&im, &r) || sval(&ct.decrypt(&k.sk)) != im || rnd_val(&ct.derive_randomizer(&k.sk)) != r {
                c.violation("exhaustive", "exhaustive", format!("p={:?} q={:?} m={:?} r={:?}", k.p, k.q, im, r));
            }
            m += step;
        }
    });
}

pub fn main() -> i32 {
    let c = Ctx::new("C07");
    exhaustive(&c, scale(16, 1));
    c.par(scale(40, 800), |i| {
        mixed::<Tiny12>(&c, "12-bit primes", i);
        mixed::<Tiny32>(&c, "32-bit primes", i);
        mixed::<PaillierTest>(&c, "128-bit primes", i);
    });
    level::<Tiny8>(&c, "8-bit primes", scale(16, 40), 200, 40);
    level::<Tiny12>(&c, "12-bit primes", scale(16, 200), 200, 40);
    level::<Tiny32>(&c, "32-bit primes", scale(24, 400), 150, 40);
    level::<Full64>(&c, "64-bit primes (no spare bits)", scale(24, 400), 150, 40);
    level::<PaillierTest>(&c, "128-bit primes", scale(24, 400), 100, 20);
    level::<<ProductionParams112 as SchemeParams>::Paillier>(&c, "1024-bit primes", scale(2, 24), scale(6, 20), 1);
    c.finish(
        "keys of six prime sizes (random, and the extreme primes of each size) x boundary plaintexts/units/exponents; encryption by definition, decryption, extracted randomizer and exact ciphertext after every homomorphic operation compared with big-integer Paillier. Distinct = distinct (key, plaintext, randomizer) or operation histories",
        &["the harness's big-integer reference", "p = q is skipped (possible only in the miniature parameter sets)"],
    )
}
