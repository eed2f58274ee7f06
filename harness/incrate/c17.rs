// C17: the operations on secrets are non-interfering: for fixed public data, the sequence of control-flow edges and of
// accessed addresses is the same whatever the secret is. The compiler's coverage instrumentation reports both (see
// ../covrt); a bump allocator which restarts for each run makes heap addresses reproducible.
use std::format;
use std::hint::black_box;
use std::prelude::rust_2021::*;
use std::process::Command;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::util::*;
use super::zkfix::*;
use crate::curve::{secret_split, Point, Scalar};
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::paillier::*;
use crate::params::*;
use crate::tools::Secret;
use crate::uint::*;
use crate::SchemeParams;
use crypto_bigint::modular::Retrieve;
use crypto_bigint::subtle::{Choice, ConditionallyNegatable};
use crypto_bigint::{Bounded, CheckedAdd, CheckedMul, CheckedSub, Integer, Monty, NonZero, Odd, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub};

#[global_allocator]
static ALLOC: covrt::Bump = covrt::Bump;

// ---- the workload

struct T<'a> {
    c: &'a Ctx,
    lay: &'a Layout,
    group: &'static str,
    only: String,
    /// The operations are long ones: fewer secrets.
    heavy: bool,
}

#[inline(never)]
fn observe<S, R>(first: bool, s: &S, run: &impl Fn(&S) -> R) -> covrt::Region {
    covrt::begin(first);
    drop(black_box(run(black_box(s))));
    covrt::end()
}

impl T<'_> {
    /// Runs `run` for each of the secrets (for the first one twice) and compares the traces.
    #[inline(never)]
    fn op<I, S, R>(&mut self, name: &str, secrets: &[(String, I)], build: impl Fn(&I) -> S, run: impl Fn(&S) -> R) {
        if !self.only.is_empty() && self.only != name {
            return;
        }
        let n = secrets.len();
        let limit = if self.heavy { scale(12, 100) } else { scale(40, 500) } as usize;
        // the special values come first
        let some: Vec<usize> = if n <= limit { (0..n).collect() } else { (0..limit / 2).chain(n - (limit - limit / 2)..n).collect() };
        let order: Vec<usize> = std::iter::once(0).chain(some).collect();
        let mut seen = vec![];
        for (n, k) in order.iter().enumerate() {
            covrt::arena_start();
            let s = build(&secrets[*k].1);
            seen.push(observe(n == 0, &s, &run));
            drop(s);
            covrt::arena_stop();
        }
        self.judge(name, &order.iter().map(|k| secrets[*k].0.as_str()).collect::<Vec<_>>(), &seen);
    }

    fn judge(&self, name: &str, secrets: &[&str], rs: &[covrt::Region]) {
        let (c, group) = (self.c, self.group);
        if rs.iter().any(|r| r.truncated) {
            return c.inconclusive(format!("{}: the trace of {} is not complete", group, name));
        }
        let control = name.starts_with("CONTROL");
        if rs[1].diff.is_some() {
            return c.inconclusive(format!("{}: {} is not even reproducible for the same secret: {:x?}, at {}", group, name, rs[1].diff, self.lay.place(rs[1].diff.unwrap().3)));
        }
        c.measure("edges inside regions", rs.iter().map(|r| r.edges).sum());
        c.measure("memory accesses inside regions", rs.iter().map(|r| r.mem).sum());
        let mut seen = 0;
        for (r, s) in rs.iter().zip(secrets).skip(2) {
            c.count(if control { "control regions" } else { "regions compared" });
            c.distinct(format!("{}/{}/{}", group, name, s).as_bytes());
            if let Some((pos, want, got, pc, prev)) = r.diff {
                seen += 1;
                if control || seen > 1 {
                    continue;
                }
                let edge = |e: u32| e & 1 == 0;
                let what = if edge(want) || edge(got) { "executed instructions depend on the secret" } else { "accessed addresses depend on the secret" };
                c.violation(
                    &format!("{}/{}", group, name),
                    what,
                    format!("{} / {}: event {} differs between the secrets {} and {}; at {}, after {}", group, name, pos, secrets[0], s, self.lay.place(pc), self.lay.place(prev)),
                );
            }
        }
        if control && seen == 0 {
            c.inconclusive(format!("the monitor does not see the deliberate leak {}", name));
        }
        if name.starts_with("CLEAN") && seen != 0 {
            c.inconclusive("the monitor reports a leak where there is none");
        }
        if !control {
            c.count("operations");
            c.sample(group, format!("{}: {} secrets, {} edges and {} accesses each, hash {:x}", name, secrets.len() - 1, rs[0].edges, rs[0].mem, rs[0].hash));
        }
    }
}

fn lab(v: &Nat) -> String {
    short(&format!("0x{}", hexs(&v.to_be_padded((v.bits() as usize).div_ceil(8).max(1)))), 70)
}
fn labi(v: &Int) -> String {
    format!("{}{}", if v.neg { "-" } else { "" }, lab(&v.mag))
}

/// Naturals below 2^bits of all shapes.
fn nats(rng: &mut Rng, bits: u32, n: u64) -> Vec<Nat> {
    let top = Nat::pow2(bits);
    let one = Nat::one();
    let mut v = vec![Nat::random_bits(rng, bits.saturating_sub(1).max(1)), Nat::zero(), one.clone(), top.sub(&one), Nat::pow2(bits - 1), Nat::pow2(bits / 2)];
    if bits > 64 {
        v.push(Nat::pow2(64));
        v.push(Nat::pow2(64).sub(&one));
        v.push(top.sub(&Nat::pow2(64)));
    }
    for _ in 0..n {
        let b = 1 + rng.next_u32() % bits;
        v.push(Nat::random_bits(rng, b));
    }
    v
}
fn ints(rng: &mut Rng, bits: u32, n: u64) -> Vec<Int> {
    nats(rng, bits, n)
        .into_iter()
        .flat_map(|m| [Int::from(m.clone()), Int::new(true, m)])
        .filter(|x| !(x.neg && x.mag.is_zero()))
        .collect()
}
fn below(rng: &mut Rng, m: &Nat, n: u64) -> Vec<Nat> {
    let mut v: Vec<Nat> = nats(rng, m.bits(), n).into_iter().filter(|x| x < m).collect();
    v.push(m.sub(&Nat::one()));
    v.push(m.shr(1));
    v.push(m.shr(1).add(&Nat::one()));
    for _ in 0..n {
        v.push(Nat::random_below(rng, m));
    }
    v
}
/// All kinds of pairs, but not all pairs.
fn pairs<A: Clone>(rng: &mut Rng, v: &[A], limit: usize) -> Vec<(A, A)> {
    let mut p: Vec<(A, A)> = v.iter().map(|a| (a.clone(), v[rng.next_u32() as usize % v.len()].clone())).collect();
    p.extend(v.iter().map(|a| (a.clone(), a.clone())));
    while p.len() > limit {
        let i = rng.next_u32() as usize % p.len();
        p.swap_remove(i);
    }
    p
}

type S1 = TestParams;
type K1 = ProductionParams112;

macro_rules! integers {
    ($fn:ident, $P:ty, $a:expr) => {
        fn $fn(t: &mut T) {
            type U = <Pp<$P> as PaillierParams>::Uint;
            type W = <Pp<$P> as PaillierParams>::WideUint;
            let rng = &mut rng_for(stringify!($fn), 0);
            let n = scale(14, 60);
            let small: u32 = $a; // operands of products
            let mk = |v: &Nat| nb::<U>(v);
            let mki = |v: &Int| twos::<U>(v);
            let sec = |x: &U| Secret::init_with(|| *x);
            let signed = |x: &U, b: u32| Option::<SecretSigned<U>>::from(SecretSigned::new_from_unsigned(sec(x), b)).unwrap();
            let unsigned = |x: &U, b: u32| Option::<SecretUnsigned<U>>::from(SecretUnsigned::new(sec(x), b)).unwrap();

            // full-width words
            let full: Vec<Nat> = nats(rng, U::BITS, n);
            let one: Vec<(String, U)> = full.iter().map(|v| (lab(v), mk(v))).collect();
            let two: Vec<(String, (U, U))> = pairs(rng, &full, 2 * full.len()).iter().map(|(a, b)| (format!("{} {}", lab(a), lab(b)), (mk(a), mk(b)))).collect();
            let s2 = |p: &(U, U)| (sec(&p.0), sec(&p.1));
            t.op("Secret::clone", &one, |x| sec(x), |x| x.clone());
            t.op("Secret::init_with", &one, |x| *x, |x| (Secret::init_with(|| *x), Secret::try_init_with(|| Ok::<_, ()>(*x)).unwrap()));
            t.op("Secret wrapping ops", &two, s2, |(a, b)| (a.wrapping_add(b), a.wrapping_sub(b), a.wrapping_mul(b), a.wrapping_neg()));
            t.op("Secret::to_wide", &one, |x| sec(x), |x| x.to_wide::<W>());
            let sel: Vec<(String, (U, U, u8))> = two.iter().flat_map(|(l, p)| [0u8, 1].map(|c| (format!("{} {}", l, c), (p.0, p.1, c)))).collect();
            t.op("Secret::conditional_select", &sel, |p| (sec(&p.0), sec(&p.1), Choice::from(p.2)), |(a, b, c)| Secret::conditional_select(a, b, *c));
            // public divisors of several sizes
            for (i, d) in [Nat::from(3), Nat::random_bits(rng, 64), Nat::random_bits(rng, U::BITS / 2), Nat::random_bits(rng, U::BITS - 1), Nat::pow2(U::BITS - 1).add(&Nat::one())].iter().enumerate() {
                let d = NonZero::new(mk(d)).unwrap();
                t.op(&format!("Secret % public #{}", i), &one, |x| sec(x), |x| x % &d);
                t.op(&format!("Secret %= public #{}", i), &one, |x| sec(x), |x| { let mut y = x.clone(); y %= &d; y });
                t.op(&format!("Secret / public #{}", i), &one, |x| sec(x), |x| { let mut y = x.clone(); y /= &d; y.clone() / d });
            }
            // range checks
            for bound in [1u32, 63, 64, 65, small, U::BITS - 2, U::BITS - 1, U::BITS, U::BITS + 1] {
                t.op(&format!("SecretUnsigned::new {}", bound), &one, |x| sec(x), |x| SecretUnsigned::new(x.clone(), bound));
                t.op(&format!("SecretSigned::new_positive {}", bound), &one, |x| sec(x), |x| SecretSigned::new_positive(x.clone(), bound));
                t.op(&format!("SecretSigned::new_from_unsigned {}", bound), &one, |x| sec(x), |x| SecretSigned::new_from_unsigned(x.clone(), bound));
            }
            let m = { let m = Nat::random_bits(rng, U::BITS - 1); if m.is_odd() { m } else { m.add(&Nat::one()) } };
            let nz = NonZero::new(mk(&m)).unwrap();
            let residues: Vec<Nat> = below(rng, &m, n);
            let res1: Vec<(String, U)> = residues.iter().map(|v| (lab(v), mk(v))).collect();
            let res2: Vec<(String, (U, U))> = pairs(rng, &residues, 2 * residues.len()).iter().map(|(a, b)| (format!("{} {}", lab(a), lab(b)), (mk(a), mk(b)))).collect();
            for bound in [small, U::BITS - 1] {
                t.op(&format!("SecretSigned::new_modulo {}", bound), &res1, |x| sec(x), |x| SecretSigned::new_modulo(x.clone(), &nz, bound));
            }
            // unsigned
            let mb = m.bits();
            t.op("SecretUnsigned ops", &res1, |x| unsigned(x, mb), |x| (x.is_zero(), x.bound(), x.clone(), x.to_wide::<W>()));
            t.op("SecretUnsigned::add_mod", &res2, |p| (unsigned(&p.0, mb), unsigned(&p.1, mb), Secret::init_with(|| nz)), |(a, b, m)| a.add_mod(b, m));
            let mask = mk(&Nat::random_bits(rng, 100));
            t.op("SecretUnsigned & public", &one, |x| unsigned(x, U::BITS), |x| x & mask);

            // signed: values of a bound, and of the greatest bounds
            for (tag, b) in [("", small), (" wide", U::BITS - 2)] {
                let vals: Vec<Int> = ints(rng, b, n);
                let one: Vec<(String, U)> = vals.iter().map(|v| (labi(v), mki(v))).collect();
                let two: Vec<(String, (U, U))> = pairs(rng, &vals, 2 * vals.len()).iter().map(|(x, y)| (format!("{} {}", labi(x), labi(y)), (mki(x), mki(y)))).collect();
                let s2 = |p: &(U, U)| (signed(&p.0, b), signed(&p.1, b));
                t.op(&format!("SecretSigned unary{}", tag), &one, |x| signed(x, b), |x| (x.is_negative(), x.neg(), -x.clone(), -x, x.abs(), x.abs_value(), x.clone(), x.bound()));
                t.op(&format!("SecretSigned::to_wide{}", tag), &one, |x| signed(x, b), |x| x.to_wide::<W>());
                t.op(&format!("SecretSigned + -{}", tag), &two, s2, |(x, y)| (x.clone() + y, x.clone() + y.clone(), x.clone() - y.clone()));
                t.op(&format!("SecretSigned checked + - *{}", tag), &two, s2, |(x, y)| (CheckedAdd::checked_add(x, y), x.checked_sub(y), CheckedMul::checked_mul(x, y)));
                for exp in [1u32, 63, 64, 65, small - 1, small, U::BITS - 2] {
                    t.op(&format!("SecretSigned::ensure_exponent_range {}{}", exp, tag), &one, |x| signed(x, b), |x| x.clone().ensure_exponent_range(exp));
                }
                t.op(&format!("SecretSigned::assert_exponent_range{}", tag), &one, |x| signed(x, b), |x| x.assert_exponent_range(b + 1));
                for (i, p) in [Int::small(0), Int::small(1), Int::small(-1), Int::new(true, Nat::random_bits(rng, small)), Int::from(Nat::random_bits(rng, small))].iter().enumerate() {
                    let p = mk_public::<U>(p, small);
                    t.op(&format!("SecretSigned with public #{}{}", i, tag), &one, |x| (signed(x, b), p.clone()), |(x, p)| {
                        (x.clone() + p.clone(), CheckedAdd::checked_add(x, p), CheckedMul::checked_mul(x, p), x.mul_wide_public::<U, W>(p))
                    });
                    if b == small {
                        t.op(&format!("SecretSigned * public #{}{}", i, tag), &one, |x| (signed(x, b), p.clone()), |(x, p)| (x * p.clone(), x.clone() * p.clone()));
                    }
                }
                if b == small {
                    t.op("SecretSigned *", &two, s2, |(x, y)| (x.clone() * y, x.clone() * y.clone()));
                    t.op("SecretSigned sum", &two, s2, |(x, y)| [x, y, x].into_iter().sum::<SecretSigned<U>>());
                }
            }
        }
    };
}
integers!(integers_test, S1, 100);
integers!(integers_prod, K1, 900);

macro_rules! montgomery {
    ($fn:ident, $P:ty, $a:expr, $pow:expr) => {
        fn $fn(t: &mut T) {
            type U = <Pp<$P> as PaillierParams>::Uint;
            type M = <U as Integer>::Monty;
            let rng = &mut rng_for(stringify!($fn), 0);
            let n = scale(3, 20);
            let small: u32 = $a;
            let sec = |x: &U| Secret::init_with(|| *x);
            let m = { let m = Nat::random_bits(rng, U::BITS - 1); if m.is_odd() { m } else { m.add(&Nat::one()) } };
            let params = <M as Monty>::new_params_vartime(Odd::new(nb::<U>(&m)).unwrap());
            let full: Vec<(String, U)> = nats(rng, U::BITS, n).iter().map(|v| (lab(v), nb(v))).collect();
            t.op("to_montgomery", &full, |x| (sec(x), Option::<SecretUnsigned<U>>::from(SecretUnsigned::new(sec(x), U::BITS)).unwrap()), |(x, y)| (x.to_montgomery(&params), y.to_montgomery(&params)));
            let res = below(rng, &m, n);
            let mont = |x: &U| Secret::init_with(|| <M as Monty>::new(*x, params.clone()));
            let one: Vec<(String, U)> = res.iter().map(|v| (lab(v), nb(v))).collect();
            let two: Vec<(String, (U, U))> = pairs(rng, &res, 2 * res.len()).iter().map(|(a, b)| (format!("{} {}", lab(a), lab(b)), (nb(a), nb(b)))).collect();
            let s2 = |p: &(U, U)| (mont(&p.0), mont(&p.1), *mont(&p.1).expose_secret());
            t.op("Monty + -", &two, s2, |(a, b, c)| (a + b, a.clone() + b, a.clone() + b.clone(), a + b.clone(), a + c, a.clone() + c, a.clone() - b.clone(), a.clone() - c, -a));
            t.op("Monty *", &two, s2, |(a, b, c)| (a * b, a.clone() * b, a.clone() * b.clone(), a * c, a.clone() * c, a * *c, a.clone() * *c));
            t.op("Monty assign", &two, s2, |(a, b, c)| { let mut x = a.clone(); x += b.clone(); x += c; x *= c; x });
            t.op("Monty retrieve", &one, |x| mont(x), |x| x.retrieve());
            let neg: Vec<(String, (U, u8))> = one.iter().flat_map(|(l, x)| [0u8, 1].map(|c| (format!("{} {}", l, c), (*x, c)))).collect();
            t.op("Monty conditional_negate", &neg, |p| (mont(&p.0), Choice::from(p.1)), |(x, c)| { let mut y = x.clone(); y.conditional_negate(*c); y });
            t.op("Monty conditional_select", &neg, |p| (mont(&p.0), mont(&one[0].1), Choice::from(p.1)), |(x, y, c)| Secret::conditional_select(x, y, *c));
            if $pow {
                t.heavy = true;
                // secret bases and exponents
                let bases: Vec<U> = (0..3).map(|_| loop {
                    let b = Nat::random_below(rng, &m);
                    if b.gcd(&m) == Nat::one() {
                        break nb::<U>(&b);
                    }
                }).collect();
                for b in [1u32, small] {
                    let exps: Vec<(String, U)> = ints(rng, b, n).iter().map(|v| (labi(v), twos(v))).collect();
                    let signed = |x: &U| Option::<SecretSigned<U>>::from(SecretSigned::new_from_unsigned(sec(x), b)).unwrap();
                    t.op(&format!("Secret base ^ SecretSigned {}", b), &exps, |x| (mont(&bases[0]), signed(x)), |(a, e)| a.pow(e));
                    t.op(&format!("base ^ SecretSigned {}", b), &exps, |x| (*mont(&bases[1]).expose_secret(), signed(x)), |(a, e)| Exponentiable::pow(a, e));
                    let exps: Vec<(String, U)> = nats(rng, b, n).iter().map(|v| (lab(v), nb(v))).collect();
                    let unsigned = |x: &U| Option::<SecretUnsigned<U>>::from(SecretUnsigned::new(sec(x), b)).unwrap();
                    t.op(&format!("Secret base ^ SecretUnsigned {}", b), &exps, |x| (mont(&bases[0]), unsigned(x)), |(a, e)| a.pow(e));
                    t.op(&format!("base ^ SecretUnsigned {}", b), &exps, |x| (*mont(&bases[2]).expose_secret(), unsigned(x)), |(a, e)| Exponentiable::pow(a, e));
                }
                // secret base, public exponent
                let bases: Vec<(String, U)> = bases.iter().map(|b| (lab(&bn(b)), *b)).collect();
                for (i, e) in [Int::small(0), Int::small(5), Int::small(-5), Int::from(Nat::random_bits(rng, small))].iter().enumerate() {
                    let e = mk_public::<U>(e, small);
                    t.op(&format!("Secret base ^ PublicSigned #{}", i), &bases, |x| mont(x), |x| x.pow(&e));
                }
            }
        }
    };
}
montgomery!(montgomery_test, S1, 66, true);
montgomery!(montgomery_prod, K1, 7, true);

macro_rules! scalars {
    ($fn:ident, $P:ty, $cu:expr, $points:expr) => {
        fn $fn(t: &mut T) {
            let rng = &mut rng_for(stringify!($fn), 0);
            let cu = $cu;
            let n = scale(14, 60);
            let vals = below(rng, &cu.n, n);
            let sc = |v: &Nat| mk_sc::<$P>(&cu, v);
            let one: Vec<(String, Scalar<$P>)> = vals.iter().map(|v| (lab(v), sc(v))).collect();
            let two: Vec<(String, (Scalar<$P>, Scalar<$P>))> = pairs(rng, &vals, 2 * vals.len()).iter().map(|(a, b)| (format!("{} {}", lab(a), lab(b)), (sc(a), sc(b)))).collect();
            let sec = |x: &Scalar<$P>| Secret::init_with(|| *x);
            let s2 = |p: &(Scalar<$P>, Scalar<$P>)| (sec(&p.0), sec(&p.1), p.1);
            t.op("Secret<Scalar> + -", &two, s2, |(a, b, c)| (a + b, a.clone() + b, a.clone() + b.clone(), a + b.clone(), a + c, a.clone() + c, a.clone() - b.clone(), a.clone() - c, -a));
            t.op("Secret<Scalar> *", &two, s2, |(a, b, c)| (a * b, a.clone() * b, a.clone() * b.clone(), a * c, a.clone() * c, a * *c, a.clone() * *c));
            t.op("Secret<Scalar> assign", &two, s2, |(a, b, c)| { let mut x = a.clone(); x += b.clone(); x += c; x *= c; x });
            t.op("Secret<Scalar> sum", &two, s2, |(a, b, _)| ([a, b, a].into_iter().sum::<Secret<Scalar<$P>>>(), [a.clone(), b.clone()].into_iter().sum::<Secret<Scalar<$P>>>()));
            let sel: Vec<(String, (Scalar<$P>, Scalar<$P>, u8))> = two.iter().flat_map(|(l, p)| [0u8, 1].map(|c| (format!("{} {}", l, c), (p.0, p.1, c)))).collect();
            t.op("Secret<Scalar>::conditional_select", &sel, |p| (sec(&p.0), sec(&p.1), Choice::from(p.2)), |(a, b, c)| Secret::<Scalar<$P>>::conditional_select(a, b, *c));
            t.op("Secret<Scalar>::clone", &one, |x| sec(x), |x| x.clone());
            // a fixed source of parts
            let src = rng_for("split", 0);
            for parts in [1usize, 2, 5] {
                t.op(&format!("secret_split {}", parts), &one, |x| (sec(x), src.clone()), |(x, r)| secret_split::<$P>(&mut r.clone(), x.clone(), parts));
            }
            t.op("secret_signed_from_scalar", &one, |x| sec(x), |x| secret_signed_from_scalar::<$P>(x));
            if $points {
                t.heavy = true;
                let nonzero: Vec<(String, Scalar<$P>)> = vals.iter().filter(|v| !v.is_zero()).map(|v| (lab(v), sc(v))).collect();
                t.op("to_signing_key", &nonzero, |x| sec(x), |x| x.to_signing_key());
                let g: Point<$P> = sc(&Nat::from(0x1234_5678)).mul_by_generator();
                let few: Vec<(String, Scalar<$P>)> = one.iter().cloned().collect();
                t.op("Secret<Scalar>::mul_by_generator", &few, |x| sec(x), |x| x.mul_by_generator());
                t.op("Point * Secret<Scalar>", &few, |x| sec(x), |x| g * x);
                t.op("Point * Secret<Scalar> overloads", &few[..few.len().min(8)], |x| sec(x), |x| (g * x.clone(), &g * x, &g * x.clone()));
            }
        }
    };
}
scalars!(scalars_k256, K1, CurveRef::secp256k1(), true);

macro_rules! conversions {
    ($fn:ident, $P:ty, $cu:expr) => {
        fn $fn(t: &mut T) {
            type U = <Pp<$P> as PaillierParams>::Uint;
            type W = <Pp<$P> as PaillierParams>::WideUint;
            let rng = &mut rng_for(stringify!($fn), 0);
            let cu = $cu;
            let n = scale(3, 30);
            let mut special: Vec<Int> = vec![];
            for k in [1u64, 2, 3] {
                for d in [-1i64, 0, 1] {
                    let m = Int::from(cu.n.mul(&Nat::from(k))).add(&Int::small(d));
                    special.push(m.clone());
                    special.push(m.neg());
                }
            }
            let b = U::BITS - 2;
            let mut v = ints(rng, b, n);
            v.extend(special.clone());
            let one: Vec<(String, U)> = v.iter().map(|v| (labi(v), twos(v))).collect();
            t.op("secret_scalar_from_signed", &one, |x| Option::<SecretSigned<U>>::from(SecretSigned::new_from_unsigned(Secret::init_with(|| *x), b)).unwrap(), |x| secret_scalar_from_signed::<$P>(x));
            let b = W::BITS - 2;
            let mut v = ints(rng, b, n);
            v.extend(special);
            let one: Vec<(String, W)> = v.iter().map(|v| (labi(v), twos(v))).collect();
            t.op("secret_scalar_from_wide_signed", &one, |x| Option::<SecretSigned<W>>::from(SecretSigned::new_from_unsigned(Secret::init_with(|| *x), b)).unwrap(), |x| secret_scalar_from_wide_signed::<$P>(x));
        }
    };
}
conversions!(conversions_k256, K1, CurveRef::secp256k1());


fn paillier(t: &mut T, part: u32) {
    type Q = Pp<S1>;
    type U = <Q as PaillierParams>::Uint;
    type W = <Q as PaillierParams>::WideUint;
    let rng = &mut rng_for("c17/paillier", 0);
    let n = scale(2, 10);
    let sk = SecretKeyPaillierWire::<Q>::random(rng).into_precomputed();
    let pk = sk.public_key().clone();
    let modulus = bn(pk.modulus());
    let (p, q) = (bn(sk.p_signed().abs_value().expose_secret()), bn(sk.q_signed().abs_value().expose_secret()));
    let phi = p.sub(&Nat::one()).mul(&q.sub(&Nat::one()));
    let r = Randomizer::random(rng, &pk);
    let r2 = Randomizer::random(rng, &pk);
    t.heavy = true;
    let b = modulus.bits() - 2;
    let signed = |x: &U| Option::<SecretSigned<U>>::from(SecretSigned::new_from_unsigned(Secret::init_with(|| *x), U::BITS - 2)).unwrap();
    let msgs: Vec<Int> = ints(rng, b, n);
    let one: Vec<(String, U)> = msgs.iter().map(|v| (labi(v), twos(v))).collect();
    if part == 0 {
        t.op("encrypt: plaintexts", &one, |x| signed(x), |x| Ciphertext::<Q>::new_with_randomizer(&pk, x, &r));
        let wide: Vec<(String, W)> = msgs.iter().map(|v| (labi(v), twos(v))).collect();
        t.op("encrypt wide: plaintexts", &wide, |x| Option::<SecretSigned<W>>::from(SecretSigned::new_from_unsigned(Secret::init_with(|| *x), W::BITS - 2)).unwrap(), |x| Ciphertext::<Q>::new_wide_with_randomizer(&pk, x, &r));
        let rs: Vec<(String, Randomizer<Q>)> = (0..n + 3).map(|i| (format!("randomizer {}", i), Randomizer::random(rng, &pk))).collect();
        t.op("encrypt: randomizers", &rs, |r| r.clone(), |r| Ciphertext::<Q>::new_with_randomizer(&pk, &signed(&one[1].1), r));
        let e = mk_public::<U>(&Int::small(-12345), 20);
        t.op("mask: randomizers", &rs, |r| r.clone(), |r| r.to_masked(&r2, &e));
        t.op("mask: coefficients", &rs, |r| r.clone(), |r| r2.to_masked(r, &e));
    } else if part == 1 {
        // ciphertexts of chosen plaintexts; also such whose intermediate values m * phi mod N are special
        let mut plain: Vec<Nat> = vec![Nat::random_below(rng, &modulus), Nat::zero(), Nat::one(), modulus.sub(&Nat::one()), modulus.shr(1)];
        let inv = phi.invmod(&modulus).unwrap();
        for k in [Nat::one(), Nat::from(2), Nat::pow2(63), Nat::pow2(64), Nat::pow2(65), Nat::pow2(128), modulus.sub(&Nat::one())] {
            plain.push(k.mul(&inv).rem(&modulus));
        }
        for _ in 0..n {
            plain.push(Nat::random_below(rng, &modulus));
        }
        let cts: Vec<(String, Ciphertext<Q>)> = plain
            .iter()
            .map(|m| {
                let m_ = Int::from(m.clone());
                let x = SecretSigned::<W>::from_twos(&m_);
                (lab(m), Ciphertext::<Q>::new_wide_with_randomizer(&pk, &x, &r))
            })
            .collect();
        t.op("decrypt: plaintexts", &cts, |c| c.clone(), |c| c.decrypt(&sk));
        t.op("derive_randomizer", &cts, |c| c.clone(), |c| c.derive_randomizer(&sk));
    } else if part == 2 {
        let ct = Ciphertext::<Q>::new_with_randomizer(&pk, &signed(&one[0].1), &r);
        t.op("ciphertext * secret", &one, |x| (ct.clone(), signed(x)), |(c, x)| c * x);
        let wide: Vec<(String, W)> = msgs.iter().map(|v| (labi(v), twos(v))).collect();
        t.op("ciphertext * secret wide", &wide[..6], |x| (ct.clone(), Option::<SecretSigned<W>>::from(SecretSigned::new_from_unsigned(Secret::init_with(|| *x), W::BITS - 2)).unwrap()), |(c, x)| c.clone() * x);
    }
}

macro_rules! residues {
    ($fn:ident, $P:ty, $keys:expr) => {
        fn $fn(t: &mut T) {
            type Q = Pp<$P>;
            type U = <Q as PaillierParams>::Uint;
            let rng = &mut rng_for(stringify!($fn), 0);
            let n = scale(4, 20);
            let wire: SecretKeyPaillierWire<Q> = $keys(rng);
            let (p, q) = primes_of(&wire);
            let sk = wire.into_precomputed();
            let modulus = bn(sk.public_key().modulus());
            // residues are secret here
            let mut v: Vec<Nat> = vec![Nat::random_below(rng, &modulus), Nat::zero(), Nat::one(), modulus.sub(&Nat::one()), p.clone(), q.clone()];
            for m in [&p, &q] {
                for k in [Nat::one(), Nat::pow2(63), Nat::pow2(64), Nat::from(77)] {
                    v.push(m.mul(&Nat::from(9)).add(&k).rem(&modulus));
                }
            }
            for _ in 0..n {
                v.push(Nat::random_below(rng, &modulus));
            }
            let one: Vec<(String, U)> = v.iter().map(|x| (lab(x), nb(x))).collect();
            t.op("rns_split", &one, |x| *x, |x| sk.rns_split(x));
            t.op("rns_join", &one, |x| sk.rns_split(x), |x| sk.rns_join(x));
            t.op("key accessors", &one[..1], |_| sk.clone(), |k| (k.p_signed(), k.q_signed(), k.totient_wide_unsigned(), k.clone()));
            if U::BITS < 1000 {
                t.heavy = true;
                // squares are public here: all secrets are squares, and no residue is special
                let squares: Vec<(String, U)> = v.iter().map(|x| x.mul(x).rem(&modulus)).filter(|x| x.gcd(&modulus) == Nat::one()).map(|x| (lab(&x), nb(&x))).collect();
                t.op("rns_sqrt", &squares, |x| sk.rns_split(x), |x| sk.rns_sqrt(x));
            }
        }
    };
}
residues!(residues_test, S1, |rng: &mut Rng| SecretKeyPaillierWire::random(rng));
residues!(residues_prod, K1, |_: &mut Rng| sk_from_primes(&nat_hex(P_PROD), &nat_hex(Q_PROD)).unwrap());
const P_PROD: &str = "C399664CA7F08EEF2F9B7C491B9F046F6D89690406EC416E0336AE1BEA54224FCC946A86D68B9F5117BA1154E934E2BB6986397C0371670E09864FB209548D9A1E0A7F15D4DBB6D78302F3B016116D1D5B102326DDEC200297AF36A4A30BF0AACE30BD16A095031A3A2ABD37684734E4D90BDDECE5C62D27C122B3A255E13B53";
const Q_PROD: &str = "DDC40AB0D3AB10F4BFC52EFCD9C95F2436D34CE9613BE478B869B01C23E062FC26B95BA1A205C11D626925AA068A58E54934951826990045C831A45064976927A4444AC91168C396BC37E3C59928744CA6D790BE8F0D2911C93E7AF67D5665F2EDF13B3EBC469A16C2042B51D96D689E08090F254D845A20E3822BCB536A402F";
fn nat_hex(s: &str) -> Nat {
    Nat::from_be(&(0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect::<Vec<u8>>())
}
trait FromTwos: Sized {
    fn from_twos(v: &Int) -> Self;
}
impl FromTwos for SecretSigned<<Pp<S1> as PaillierParams>::WideUint> {
    fn from_twos(v: &Int) -> Self {
        mk_secret(v, <Pp<S1> as PaillierParams>::WideUint::BITS - 2)
    }
}

fn ring_pedersen(t: &mut T) {
    type Q = Pp<S1>;
    type U = <Q as PaillierParams>::Uint;
    type W = <Q as PaillierParams>::WideUint;
    let rng = &mut rng_for("c17/rp", 0);
    let n = scale(2, 10);
    t.heavy = true;
    let setup = rp_of::<S1>(&Setup::random(rng, Q::PRIME_BITS).json::<S1>()).unwrap();
    for b in [5u32, 66] {
        let vals = ints(rng, b, n);
        let two: Vec<(String, (U, U))> = pairs(rng, &vals, vals.len()).iter().map(|(x, y)| (format!("{} {}", labi(x), labi(y)), (twos(x), twos(y)))).collect();
        let signed = |x: &U| Option::<SecretSigned<U>>::from(SecretSigned::new_from_unsigned(Secret::init_with(|| *x), b)).unwrap();
        t.op(&format!("commit {}", b), &two, |p| (signed(&p.0), signed(&p.1)), |(v, r)| setup.commit(v, r));
        t.op(&format!("commit partial {}", b), &two, |p| (signed(&p.0), signed(&p.1)), |(v, r)| (setup.commit_zero_value(r), setup.commit_zero_randomizer(v)));
    }
    let vals = ints(rng, 260, n);
    let one: Vec<(String, W)> = vals.iter().map(|x| (labi(x), twos(x))).collect();
    let wide = |x: &W| Option::<SecretSigned<W>>::from(SecretSigned::new_from_unsigned(Secret::init_with(|| *x), 260)).unwrap();
    t.op("commit wide randomizer", &one, |x| wide(x), |r| setup.commit_zero_value(r));
}

fn controls(t: &mut T) {
    let vals: Vec<(String, u64)> = [0u64, 1, 5, 200].iter().map(|x| (x.to_string(), *x)).collect();
    let table = [1u64; 256];
    t.op("CONTROL branch", &vals, |x| *x, |x| if *x == 5 { black_box(std::hint::black_box(7u64).pow(3)) } else { black_box(1) });
    t.op("CONTROL index", &vals, |x| *x, |x| table[black_box(*x as usize)]);
    t.op("CONTROL loop", &vals, |x| *x, |x| { let mut n = *x; let mut k = 0; while n > 0 { n >>= black_box(1); k += 1; } k });
    t.op("CONTROL size", &vals, |x| *x, |x| vec![0u8; 1 + *x as usize]);
    t.op("CLEAN xor", &vals, |x| *x, |x| black_box(*x) ^ 7);
}

fn groups() -> Vec<(&'static str, fn(&mut T))> {
    vec![
        ("controls", controls),
        ("montgomery_prod", montgomery_prod),
        ("integers_prod", integers_prod),
        ("montgomery_test", montgomery_test),
        ("paillier decryption", |t| paillier(t, 1)),
        ("scalars_k256", scalars_k256),
        ("ring_pedersen", ring_pedersen),
        ("paillier products", |t| paillier(t, 2)),
        ("paillier encryption", |t| paillier(t, 0)),
        ("residues_prod", residues_prod),
        ("residues_test", residues_test),
        ("conversions_k256", conversions_k256),
        ("integers_test", integers_test),
    ]
}

// ---- the monitor

struct Layout {
    exe: String,
    base: usize,
}

impl Layout {
    /// Functions of the big-integer backend whose own behaviour is not judged (see DESIGN.md).
    fn read() -> Result<Self, String> {
        let exe = std::env::current_exe().map_err(|e| e.to_string())?.to_string_lossy().to_string();
        let maps = std::fs::read_to_string("/proc/self/maps").unwrap_or_default();
        let base = maps.lines().find(|l| l.ends_with(&exe)).and_then(|l| l.split('-').next()).and_then(|x| usize::from_str_radix(x, 16).ok()).ok_or("no load address")?;
        let syms = Command::new("nm").args(["-S", &exe]).output().map_err(|e| format!("nm: {}", e))?;
        let syms = String::from_utf8_lossy(&syms.stdout).to_string();
        let opaque = |l: &str| l.contains("7safegcd") && !l.contains("vartime");
        let mut ranges: Vec<(usize, usize)> = vec![];
        for l in syms.lines().filter(|l| l.contains("13crypto_bigint")) {
            if !opaque(l) {
                continue;
            }
            let mut it = l.split_whitespace().map(|x| usize::from_str_radix(x, 16));
            if let (Some(Ok(a)), Some(Ok(n))) = (it.next(), it.next()) {
                ranges.push((base + a, base + a + n));
            }
        }
        let classes = (0..=covrt::edges() as u32)
            .map(|e| {
                let pc = covrt::pc_of(e);
                ranges.iter().any(|r| r.0 <= pc && pc < r.1) as u8
            })
            .collect::<Vec<u8>>();
        if covrt::edges() < 1000 || !classes.contains(&1) {
            return Err(format!("unexpected instrumentation: {} edges", covrt::edges()));
        }
        covrt::set_classes(classes);
        Ok(Self { exe, base })
    }

    fn place(&self, edge: u32) -> String {
        let pc = covrt::pc_of(edge).wrapping_sub(self.base);
        let out = Command::new("addr2line").args(["-e", &self.exe, "-f", "-C", "-i", &format!("{:x}", pc)]).output();
        match out {
            Ok(o) => {
                let t = String::from_utf8_lossy(&o.stdout).to_string();
                let l: Vec<&str> = t.lines().collect();
                l.chunks(2).take(3).map(|c| format!("{} ({})", c[0], c.get(1).map_or("", |x| x.rsplit("/src/").next().unwrap_or(x)))).collect::<Vec<_>>().join(" <- ")
            }
            Err(_) => String::new(),
        }
    }
}

pub fn main() -> i32 {
    covrt::init();
    let c = Ctx::new("C17");
    let gs = groups();
    let only = std::env::var("C17_GROUP").unwrap_or_default();
    let lay = match Layout::read() {
        Ok(x) => x,
        Err(e) => {
            c.inconclusive(e);
            return c.finish("", &[]);
        }
    };
    c.measure("instrumented edges", covrt::edges() as u64);
    c.par(gs.len() as u64, |i| {
        let (group, f) = gs[i as usize];
        if only.is_empty() || only == group {
            let t0 = std::time::Instant::now();
            f(&mut T { c: &c, lay: &lay, group, only: std::env::var("C17_ONLY").unwrap_or_default(), heavy: false });
            c.count("groups");
            if std::env::var("C17_TIMES").is_ok() {
                eprintln!("{} {:?}", group, t0.elapsed());
            }
        }
    });
    if only.is_empty() && c.st.lock().unwrap().counts.get("groups").copied().unwrap_or(0) != gs.len() as u64 {
        c.inconclusive("not all groups ran");
    }
    c.finish(
        "distinct = (operation, secret) pairs whose complete trace of control-flow edges and accessed addresses was compared with that of another secret",
        &["source-level constant time: the unoptimised build is observed, with compiler instrumentation of the library, its big-integer and its curve backend", "the big-integer backend's modular inversion is taken as given", "instructions with operand-dependent latency (division, multiplication) are not considered", "sampling by rejection, serialization and the provers as a whole are not covered"],
    )
}
