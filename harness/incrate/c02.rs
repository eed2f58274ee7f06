// C02: range predicates, samplers and hash-to-range.
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::util::*;
use crate::curve::Scalar;
use crate::dev::TestParams;
use crate::paillier::*;
use crate::params::SchemeParams;
use crate::tools::bitvec::BitVec;
use crate::tools::Secret;
use crate::uint::*;
use crypto_bigint::modular::Retrieve;
use crypto_bigint::{Bounded, Uint};
use digest::XofReader;
use elliptic_curve::{Curve, CurveArithmetic};

type PT = <TestParams as SchemeParams>::Paillier;

/// Records which of 16 equal parts of [lo, hi] were reached, and complains about a missed one.
struct Buckets {
    lo: Int,
    span: Nat,
    seen: [u64; 16],
    n: u64,
    min: Option<Int>,
    max: Option<Int>,
}
impl Buckets {
    fn new(lo: Int, hi: &Int) -> Self {
        let span = hi.sub(&lo).mag.add(&Nat::one());
        Buckets { lo, span, seen: [0; 16], n: 0, min: None, max: None }
    }
    fn put(&mut self, v: &Int) -> Result<(), String> {
        let d = v.sub(&self.lo);
        if d.neg || d.mag >= self.span {
            return Err(format!("{:?} outside [{:?}, +{:?})", v, self.lo, self.span));
        }
        let k = d.mag.mul(&Nat::from(16)).divrem(&self.span).0;
        let k = k.0.first().copied().unwrap_or(0) as usize;
        self.seen[k] += 1;
        self.n += 1;
        if self.min.as_ref().map_or(true, |m| v.lt(m)) {
            self.min = Some(v.clone());
        }
        if self.max.as_ref().map_or(true, |m| m.lt(v)) {
            self.max = Some(v.clone());
        }
        Ok(())
    }
    /// With n >= 600 uniform samples a missed sixteenth has probability below 1e-16.
    fn all_parts(&self) -> Result<(), String> {
        if self.n < 600 {
            return Err("harness: too few samples".into());
        }
        if self.span.bits() <= 7 {
            // small interval: both ends must be hit
            let hi = self.lo.add(&Int::from(self.span.sub(&Nat::one())));
            if self.min.as_ref() != Some(&self.lo) || self.max.as_ref() != Some(&hi) {
                if self.span.bits() <= 5 {
                    return Err(format!("ends not reached: min {:?} max {:?} of [{:?}, {:?}]", self.min, self.max, self.lo, hi));
                }
            }
            return Ok(());
        }
        if self.seen.iter().any(|x| *x == 0) {
            return Err(format!("part of the interval never reached: {:?} of {}", self.seen, self.n));
        }
        Ok(())
    }
}

fn exp_interval(exp: u32, scale: &Nat) -> (Int, Int) {
    let h = scale.mul(&Nat::pow2(exp - 1));
    (Int::new(true, h.sub(&Nat::one())), Int::from(h))
}

fn hostile_rngs(base: Rng) -> Vec<ScriptRng> {
    let mk = |s: Vec<u8>| ScriptRng::new(s, base.clone());
    vec![
        mk(vec![]),
        mk(vec![0; 1024]),
        mk(vec![0xff; 1024]),
        mk(vec![0xff; 24]),
        mk((0..1024).map(|i| if i % 2 == 0 { 0 } else { 0xff }).collect()),
        mk([vec![0; 31], vec![0x80], vec![0xff; 64]].concat()),
    ]
}

macro_rules! width {
    ($mod:ident, $L:expr, $W:expr, $XW:expr) => {
        mod $mod {
            use super::*;
            type T = Uint<$L>;
            type W = Uint<$W>;
            type XW = Uint<$XW>;
            const BITS: u32 = 64 * $L;

            pub fn predicates(c: &Ctx, idx: u64) {
                let mut rng = rng_for(concat!("c02p", stringify!($mod)), idx);
                let exp = 1 + (idx as u32) % (BITS - 2);
                let h = Nat::pow2(exp - 1);
                let mut vals = vec![];
                for d in 0..4u64 {
                    vals.push(h.add(&Nat::from(d)));
                    if h >= Nat::from(d) {
                        vals.push(h.sub(&Nat::from(d)));
                    }
                }
                vals.push(Nat::zero());
                vals.push(Nat::one());
                vals.push(Nat::pow2(BITS - 1).sub(&Nat::one()));
                vals.push(h.shl(1));
                for _ in 0..4 {
                    let b = rng.next_u32() % (BITS - 1) + 1;
                    vals.push(Nat::random_bits(&mut rng, b));
                }
                for m in vals {
                    if m.bits() >= BITS {
                        continue;
                    }
                    for neg in [false, true] {
                        let v = Int::new(neg, m.clone());
                        let want = v.in_exp_range(exp);
                        let desc = || format!("{} bits, value {:?}, exp {}", BITS, v, exp);
                        c.distinct(desc().as_bytes());
                        c.case("range-predicate", &desc, || {
                            let p: PublicSigned<T> = mk_public(&v, BITS - 1);
                            if p.is_in_exponent_range(exp) != want {
                                return Err(format!("public predicate says {}", !want));
                            }
                            let p2: PublicSigned<T> = mk_public(&v, v.mag.bits());
                            if p2.is_in_exponent_range(exp) != want {
                                return Err(format!("public predicate (tight bound) says {}", !want));
                            }
                            let s: SecretSigned<T> = mk_secret(&v, BITS - 1);
                            if no_panic(|| s.assert_exponent_range(exp)).is_ok() != want {
                                return Err(format!("secret assertion disagrees, want {}", want));
                            }
                            let e: Option<SecretSigned<T>> = s.ensure_exponent_range(exp).into();
                            if exp < BITS - 1 && e.is_some() != want {
                                return Err(format!("secret ensure disagrees, want {}", want));
                            }
                            if let Some(e) = e {
                                if sval(&e) != v {
                                    return Err("ensure changed the value".into());
                                }
                            }
                            Ok(())
                        });
                    }
                }
            }

            pub fn samplers(c: &Ctx, idx: u64) {
                let mut r0 = rng_for(concat!("c02s", stringify!($mod)), idx);
                let exp = match idx % 4 {
                    0 => 1 + (idx as u32 / 4) % 8,
                    1 => BITS - 1 - (idx as u32 / 4) % 4,
                    _ => 1 + r0.next_u32() % (BITS - 1),
                };
                let (lo, hi) = exp_interval(exp, &Nat::one());
                let n = 640;
                let desc = || format!("{} bits exp {}", BITS, exp);
                c.distinct(desc().as_bytes());
                c.sample("sampler", desc());
                let chk = |x: &SecretSigned<T>, b: &mut Buckets| -> Result<(), String> {
                    let v = sval(x);
                    b.put(&v)?;
                    if !v.mag.fits(x.bound()) || x.bound() >= BITS + 0 && x.bound() != BITS - 1 {
                        return Err(format!("bound {} of {:?}", x.bound(), v));
                    }
                    Ok(())
                };
                c.case("random-in-range", &desc, || {
                    let mut b = Buckets::new(lo.clone(), &hi);
                    for mut r in hostile_rngs(r0.clone()) {
                        chk(&SecretSigned::random_in_exponent_range(&mut r, exp), &mut b)?;
                    }
                    for _ in 0..n {
                        chk(&SecretSigned::random_in_exponent_range(&mut r0, exp), &mut b)?;
                    }
                    c.count_n("samples-observed", b.n);
                    b.all_parts()
                });
                c.case("xof-in-range", &desc, || {
                    let mut b = Buckets::new(lo.clone(), &hi);
                    for i in 0..n {
                        let script = match i {
                            0 => vec![0; 300],
                            1 => vec![0xff; 300],
                            2 => vec![0x80],
                            3 => vec![0x7f],
                            _ => vec![],
                        };
                        let mut x = FakeXof::new(script, idx * 100_000 + i);
                        let mut y = x.clone();
                        let a = PublicSigned::<T>::from_xof_reader_in_exponent_range(&mut x, exp);
                        let a2 = PublicSigned::<T>::from_xof_reader_in_exponent_range(&mut y, exp);
                        if a != a2 || x.pos != y.pos {
                            return Err("same stream, different value".into());
                        }
                        let v = pval(&a);
                        b.put(&v)?;
                        if !v.mag.fits(a.bound()) || a.bound() >= BITS {
                            return Err(format!("bound {} of {:?}", a.bound(), v));
                        }
                        if a.is_in_exponent_range(exp) != true {
                            return Err("range predicate rejects a hash-derived value".into());
                        }
                    }
                    c.count_n("samples-observed", b.n);
                    b.all_parts()
                });
                let nb_ = 1 + r0.next_u32() % BITS;
                c.case("xof-bits", &|| format!("{} bits, n_bits {}", BITS, nb_), || {
                    let hi = Int::from(Nat::pow2(nb_).sub(&Nat::one()));
                    let mut b = Buckets::new(Int::zero(), &hi);
                    for i in 0..n {
                        let script = match i { 0 => vec![0; 300], 1 => vec![0xff; 300], _ => vec![] };
                        let mut x = FakeXof::new(script, idx * 100_000 + i + 50_000);
                        let mut y = x.clone();
                        let v = T::from_xof_reader(&mut x, nb_);
                        if v != T::from_xof_reader(&mut y, nb_) {
                            return Err("same stream, different value".into());
                        }
                        b.put(&Int::from(nat(&v)))?;
                    }
                    b.all_parts()
                });
                // every stream bit that may matter: exhaustive uniformity for small ranges
                if exp <= 8 {
                    c.case("xof-uniform-exhaustive", &desc, || {
                        let mut hist = std::collections::BTreeMap::<String, u64>::new();
                        for b0 in 0..256u32 {
                            for b1 in [0u8, 0x55, 0xff] {
                                let mut x = FakeXof::new(vec![b0 as u8, b1], 1);
                                let a = PublicSigned::<T>::from_xof_reader_in_exponent_range(&mut x, exp);
                                *hist.entry(format!("{:?}", pval(&a))).or_default() += 1;
                            }
                        }
                        if hist.len() != 1 << exp {
                            return Err(format!("{} distinct values, want {}", hist.len(), 1 << exp));
                        }
                        if hist.values().any(|x| *x != 768 >> exp) {
                            return Err(format!("not uniform: {:?}", hist));
                        }
                        Ok(())
                    });
                }
                // scaled
                let sb = 1 + r0.next_u32() % (BITS - 1);
                let scale = match r0.next_u32() % 4 {
                    0 => Nat::one(),
                    1 => Nat::pow2(sb - 1),
                    _ => { let m = Nat::random_bits(&mut r0, sb); if m.is_zero() { Nat::from(5) } else { m } }
                };
                let exp2 = 1 + r0.next_u32() % (BITS - 2);
                let (lo, hi) = exp_interval(exp2, &scale);
                let desc = || format!("{} bits exp {} scale {:?}", BITS, exp2, scale);
                c.distinct(desc().as_bytes());
                c.case("random-scaled", &desc, || {
                    let mut b = Buckets::new(lo.clone(), &hi);
                    let sc = uint_of::<$L>(&scale);
                    let mut all: Vec<SecretSigned<W>> = vec![];
                    for mut r in hostile_rngs(r0.clone()) {
                        all.push(SecretSigned::<T>::random_in_exponent_range_scaled::<W>(&mut r, exp2, &sc));
                    }
                    for _ in 0..n {
                        all.push(SecretSigned::<T>::random_in_exponent_range_scaled::<W>(&mut r0, exp2, &sc));
                    }
                    for x in &all {
                        let v = sval(x);
                        b.put(&v)?;
                        if !v.mag.fits(x.bound()) || x.bound() >= 2 * BITS {
                            return Err(format!("bound {} of {:?}", x.bound(), v));
                        }
                    }
                    c.count_n("samples-observed", b.n);
                    b.all_parts()
                });
                let wscale = scale.mul(&scale);
                let (lo, hi) = exp_interval(exp2, &wscale);
                c.case("random-scaled-wide", &|| format!("{} bits exp {} wide scale {:?}", BITS, exp2, wscale), || {
                    let mut b = Buckets::new(lo.clone(), &hi);
                    let sc = uint_of::<$W>(&wscale);
                    for _ in 0..n {
                        let x = SecretSigned::<T>::random_in_exponent_range_scaled_wide::<W, XW>(&mut r0, exp2, &sc);
                        let v = sval(&x);
                        b.put(&v)?;
                        if !v.mag.fits(x.bound()) || x.bound() >= 64 * $XW {
                            return Err(format!("bound {} of {:?}", x.bound(), v));
                        }
                    }
                    c.count_n("samples-observed", b.n);
                    b.all_parts()
                });
            }
        }
    };
}
width!(w64, 1, 2, 4);
width!(w128, 2, 4, 8);
width!(w256, 4, 8, 16);
width!(w1024, 16, 32, 64);

fn residues<P: PaillierParams>(c: &Ctx, name: &str, idx: u64, n: u64) {
    let mut rng = rng_for(&format!("c02r{}", name), idx);
    let wire = SecretKeyPaillierWire::<P>::random(&mut rng);
    let (p, q) = primes_of(&wire);
    if p == q {
        c.note(format!("{}: generated p == q, skipped (only possible for the miniature parameters)", name));
        return;
    }
    let modulus = p.mul(&q);
    let phi = p.sub(&Nat::one()).mul(&q.sub(&Nat::one()));
    let sk = wire.into_precomputed();
    let pk = sk.public_key();
    let desc = || format!("{} p={:?} q={:?}", name, p, q);
    c.distinct(desc().as_bytes());
    c.sample("key", desc());
    let unit = |v: &Nat| -> Result<(), String> {
        if *v >= modulus {
            return Err(format!("{:?} is not below the modulus {:?}", v, modulus));
        }
        if v.gcd(&modulus) != Nat::one() {
            return Err(format!("{:?} is not a unit", v));
        }
        Ok(())
    };
    let top = Int::from(modulus.sub(&Nat::one()));
    let small = modulus.bits() < 40;
    c.case("unit-residue", &desc, || {
        let mut b = Buckets::new(Int::zero(), &top);
        for mut r in hostile_rngs(rng.clone()) {
            unit(&bn(&pk.random_invertible_residue(&mut r)))?;
        }
        for _ in 0..n {
            let v = bn(&pk.random_invertible_residue(&mut rng));
            unit(&v)?;
            b.put(&Int::from(v))?;
        }
        c.count_n("samples-observed", n);
        b.all_parts()
    });
    c.case("unit-residue-xof", &desc, || {
        let mut b = Buckets::new(Int::zero(), &top);
        for i in 0..n {
            let script = match i { 0 => vec![0; 200], 1 => vec![0xff; 200], 2 => vec![0xff; 32], _ => vec![] };
            let mut x = FakeXof::new(script, idx * 1_000_000 + i);
            let mut y = x.clone();
            let v = bn(&pk.invertible_residue_from_xof_reader(&mut x));
            let w = bn(&pk.invertible_residue_from_xof_reader(&mut y));
            if v != w {
                return Err("same stream, different value".into());
            }
            unit(&v)?;
            b.put(&Int::from(v))?;
        }
        c.count_n("samples-observed", n);
        b.all_parts()
    });
    c.case("nonsquare", &desc, || {
        let mut b = Buckets::new(Int::zero(), &top);
        let mut kinds = [0u64; 2];
        for i in 0..n {
            let v = if i < 4 {
                let mut r = ScriptRng::new(if i == 1 { vec![0; 64] } else { vec![] }, rng_for("ns", i));
                bn(&sk.random_nonsquare_residue(&mut r))
            } else {
                bn(&sk.random_nonsquare_residue(&mut rng))
            };
            unit(&v)?;
            if v.jacobi(&modulus) != -1 {
                return Err(format!("Jacobi symbol of {:?} is {}", v, v.jacobi(&modulus)));
            }
            kinds[(v.rem(&p).jacobi(&p) == 1) as usize] += 1;
            b.put(&Int::from(v))?;
        }
        if kinds[0] == 0 || kinds[1] == 0 {
            return Err(format!("one class of non-squares is never sampled: {:?}", kinds));
        }
        c.count_n("samples-observed", n);
        b.all_parts()
    });
    c.case("randomizer", &desc, || {
        let mut b = Buckets::new(Int::zero(), &top);
        for _ in 0..n {
            let r = Randomizer::<P>::random(&mut rng, pk);
            let one = Randomizer::<P>::random(&mut rng, pk);
            // rho^1 * 1 cannot be built directly; rho^0 * rho is rho
            let m = one.to_masked(&r, &PublicSigned::zero());
            let v = Nat::from_be(&unhex(to_json(&m).as_str().ok_or("shape")?));
            unit(&v)?;
            b.put(&Int::from(v))?;
        }
        b.all_parts()
    });
    let _ = (phi, small);
}

fn ring_pedersen<P: PaillierParams>(c: &Ctx, name: &str, idx: u64, n: u64) {
    let mut rng = rng_for(&format!("c02rp{}", name), idx);
    let rp = RPSecret::<P>::random(&mut rng);
    let phi = bn(rp.totient_nonzero().expose_secret().as_ref());
    let desc = || format!("{} phi={:?}", name, phi);
    c.distinct(desc().as_bytes());
    c.case("mod-totient", &desc, || {
        let mut b = Buckets::new(Int::zero(), &Int::from(phi.sub(&Nat::one())));
        for mut r in hostile_rngs(rng.clone()) {
            b.put(&Int::from(bn(rp.random_residue_mod_totient(&mut r).expose_secret())))?;
        }
        for _ in 0..n {
            let x = rp.random_residue_mod_totient(&mut rng);
            let v = bn(x.expose_secret());
            if !v.fits(x.bound()) {
                return Err("bound".into());
            }
            b.put(&Int::from(v))?;
        }
        c.count_n("samples-observed", n);
        b.all_parts()
    });
    c.case("rp-lambda", &desc, || {
        let l = bn(rp.lambda().expose_secret());
        if l >= phi.shr(2).add(&Nat::one()) || !l.fits(rp.lambda().bound()) {
            return Err(format!("lambda {:?} bound {}", l, rp.lambda().bound()));
        }
        Ok(())
    });
}

fn scalars<P: SchemeParams>(c: &Ctx, name: &str, order: &Nat, idx: u64) {
    let mut rng = rng_for(&format!("c02sc{}", name), idx);
    let desc = || format!("{} block {}", name, idx);
    let top = Int::from(order.sub(&Nat::one()));
    c.case("scalar", &desc, || {
        let mut b = Buckets::new(Int::zero(), &top);
        let mut b1 = Buckets::new(Int::small(1), &top);
        let mut b2 = Buckets::new(Int::zero(), &top);
        for i in 0..700u64 {
            b.put(&Int::from(Nat::from_be(&Scalar::<P>::random(&mut rng).to_be_bytes())))?;
            b1.put(&Int::from(Nat::from_be(&Scalar::<P>::random_nonzero(&mut rng).to_be_bytes())))?;
            let script = if i == 1 { vec![0xff; 256] } else { vec![] };
            let mut x = FakeXof::new(script, idx * 10_000 + i);
            let mut y = x.clone();
            let s = Scalar::<P>::from_xof_reader(&mut x);
            if s != Scalar::<P>::from_xof_reader(&mut y) {
                return Err("same stream, different scalar".into());
            }
            b2.put(&Int::from(Nat::from_be(&s.to_be_bytes())))?;
        }
        for mut r in hostile_rngs(rng.clone()) {
            b.put(&Int::from(Nat::from_be(&Scalar::<P>::random(&mut r).to_be_bytes())))?;
        }
        for mut r in hostile_rngs(rng.clone()) {
            b1.put(&Int::from(Nat::from_be(&Scalar::<P>::random_nonzero(&mut r).to_be_bytes())))?;
        }
        c.count_n("samples-observed", 2100);
        b.all_parts()?;
        b1.all_parts()?;
        b2.all_parts()
    });
}

fn bitvecs(c: &Ctx, idx: u64) {
    let mut rng = rng_for("c02b", idx);
    let bits = (idx % 300) as usize;
    let desc = || format!("{} bits", bits);
    c.distinct(format!("bitvec {}", bits).as_bytes());
    c.case("bit-vectors", &desc, || {
        let mut ones = vec![[0u32; 2]; bits];
        for i in 0..100 {
            let mut x = FakeXof::new(vec![], idx * 1000 + i);
            let mut y = x.clone();
            let a = BitVec::from_xof_reader(&mut x, bits);
            if a != BitVec::from_xof_reader(&mut y, bits) {
                return Err("same stream, different bits".into());
            }
            let r = BitVec::random(&mut rng, bits);
            if a.bits().len() != bits || r.bits().len() != bits {
                return Err(format!("{} / {} bits", a.bits().len(), r.bits().len()));
            }
            for (k, (u, v)) in a.bits().iter().zip(r.bits()).enumerate() {
                ones[k][0] += *u as u32;
                ones[k][1] += *v as u32;
            }
            let mut z = a.clone();
            z ^= &r;
            for k in 0..bits {
                if z.bits()[k] != (a.bits()[k] ^ r.bits()[k]) {
                    return Err("xor".into());
                }
            }
        }
        // each position takes both values (probability of a miss 2^-99 per position)
        for (k, o) in ones.iter().enumerate() {
            for j in 0..2 {
                if o[j] == 0 || o[j] == 100 {
                    return Err(format!("bit {} is constant ({})", k, j));
                }
            }
        }
        Ok(())
    });
}

pub fn main() -> i32 {
    let c = Ctx::new("C02");
    c.par(scale(252, 252), |i| {
        if i < 62 { w64::predicates(&c, i) }
        if i < 126 { w128::predicates(&c, i) }
        w256::predicates(&c, i);
        for k in 0..4 { w1024::predicates(&c, 4 * i + k + 1) }
    });
    c.par(scale(40, 2000), |i| {
        w64::samplers(&c, i);
        w128::samplers(&c, i);
        w256::samplers(&c, i);
        w1024::samplers(&c, i);
    });
    c.par(scale(24, 800), |i| {
        residues::<Tiny8>(&c, "8-bit primes", i, 800);
        residues::<Tiny12>(&c, "12-bit primes", i, 800);
        residues::<Tiny16>(&c, "16-bit primes", i, 800);
        residues::<Tiny32>(&c, "32-bit primes", i, 800);
        residues::<Full64>(&c, "64-bit primes", i, 640);
        residues::<PT>(&c, "128-bit primes", i, 640);
    });
    c.par(scale(1, 8), |i| residues::<<crate::k256::ProductionParams112 as SchemeParams>::Paillier>(&c, "1024-bit primes", i, 600));
    c.par(scale(16, 400), |i| {
        ring_pedersen::<Tiny16>(&c, "16-bit primes", i, 640);
        ring_pedersen::<Full64>(&c, "64-bit primes", i, 640);
        ring_pedersen::<PT>(&c, "128-bit primes", i, 640);
    });
    c.par(scale(16, 300), |i| {
        scalars::<TestParams>(&c, "32-bit curve", &order_of::<TestParams>(), i);
        scalars::<crate::k256::ProductionParams112>(&c, "secp256k1", &order_of::<crate::k256::ProductionParams112>(), i);
    });
    c.par(scale(300, 3000), |i| bitvecs(&c, i));
    c.finish(
        "every exponent of four integer widths with values at and next to both ends of the interval; samplers run under honest and scripted (all-zero, all-one, alternating) randomness with range membership, bucket coverage and determinism monitors; small ranges enumerated over all streams. Distinct = distinct (type, exponent, scale, value) or key",
        &["reference arithmetic of the harness", "uniform samples miss a sixteenth of an interval with probability < 1e-15 per sampler run; seeds are fixed so a passing seed stays passing"],
    )
}
