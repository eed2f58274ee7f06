// C01: bounded signed/unsigned integers against an independent big-integer reference.
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use crate::tools::Secret;
use crate::uint::{BoxedEncoding, Extendable, MulWide, PublicSigned, PublicUint, SecretSigned, SecretUnsigned};
use crypto_bigint::subtle::{Choice, ConditionallySelectable, CtOption};
use crypto_bigint::{CheckedAdd, CheckedMul, CheckedSub, NonZero, Uint};

fn opt<T>(x: CtOption<T>) -> Option<T> {
    x.into()
}
fn ch(c: Choice) -> bool {
    c.into()
}

/// A magnitude with a boundary-heavy distribution, at most `max` bits.
fn mag(rng: &mut Rng, max: u32) -> Nat {
    let max = max.max(1);
    let m = mag0(rng, max);
    if m.fits(max) {
        m
    } else {
        m.rem(&Nat::pow2(max))
    }
}
fn mag0(rng: &mut Rng, max: u32) -> Nat {
    match rng.next_u32() % 8 {
        0 => Nat::from((rng.next_u32() % 5) as u64),
        1 => Nat::pow2(rng.next_u32() % max),
        2 => Nat::pow2(rng.next_u32() % max + 1).sub(&Nat::one()),
        3 => {
            let k = rng.next_u32() % max;
            let x = Nat::pow2(k).add(&Nat::from((rng.next_u32() % 4) as u64));
            if x.fits(max) {
                x
            } else {
                Nat::pow2(k)
            }
        }
        4 => Nat::pow2(max).sub(&Nat::one()),
        5 => {
            // long runs of ones / zeros: stresses carries
            let k = rng.next_u32() % max;
            let j = rng.next_u32() % (k + 1);
            Nat::pow2(k + 1).sub(&Nat::pow2(j))
        }
        _ => {
            let b = rng.next_u32() % max + 1;
            Nat::random_bits(rng, b)
        }
    }
}
fn signed(rng: &mut Rng, max: u32) -> Int {
    Int::new(rng.next_u32() & 1 == 1, mag(rng, max))
}
/// A bound for the value: exact, maximal, or something between.
fn bound_for(rng: &mut Rng, v: &Nat, max: u32) -> u32 {
    let b = v.bits();
    match rng.next_u32() % 4 {
        0 => b,
        1 => max,
        _ => b + rng.next_u32() % (max - b + 1),
    }
}

macro_rules! width {
    ($mod:ident, $L:expr, $W:expr, $XW:expr) => {
        mod $mod {
            use super::*;
            type T = Uint<$L>;
            type W = Uint<$W>;
            type XW = Uint<$XW>;
            const BITS: u32 = 64 * $L;

            fn ss(v: &Int, bound: u32) -> SecretSigned<T> {
                opt(SecretSigned::new_from_unsigned(Secret::init_with(|| twos_of::<$L>(v)), bound)).expect("in bound")
            }
            fn ps(v: &Int, bound: u32) -> PublicSigned<T> {
                PublicSigned::new_from_unsigned(twos_of::<$L>(v), bound).expect("in bound")
            }
            fn val<const N: usize>(x: &SecretSigned<Uint<N>>) -> Int {
                Int::new(ch(x.is_negative()), nat(x.abs_value().expose_secret()))
            }
            fn pval<const N: usize>(x: &PublicSigned<Uint<N>>) -> Int {
                int_of(x.value())
            }
            /// The value equals `want` and is covered by its declared bound.
            fn is<const N: usize>(x: &SecretSigned<Uint<N>>, want: &Int) -> Result<(), String> {
                let got = val(x);
                if got != *want {
                    return Err(format!("got {:?}, want {:?}", got, want));
                }
                if !got.mag.fits(x.bound()) || x.bound() >= 64 * N as u32 {
                    return Err(format!("bound {} does not cover {:?}", x.bound(), got));
                }
                // the other views agree
                let p = x.to_public();
                if int_of(p.value()) != *want || p.bound() != x.bound() {
                    return Err(format!("to_public gives {:?} bound {}", int_of(p.value()), p.bound()));
                }
                let a = x.abs();
                if nat(a.expose_secret()) != want.mag || a.bound() != x.bound() {
                    return Err(format!("abs gives {:?} bound {}", nat(a.expose_secret()), a.bound()));
                }
                Ok(())
            }
            fn pis<const N: usize>(x: &PublicSigned<Uint<N>>, want: &Int) -> Result<(), String> {
                let got = int_of(x.value());
                if got != *want || x.is_negative() != want.neg || nat(&x.abs()) != want.mag {
                    return Err(format!("got {:?} neg {} abs {:?}, want {:?}", got, x.is_negative(), nat(&x.abs()), want));
                }
                if !got.mag.fits(x.bound()) || x.bound() >= 64 * N as u32 {
                    return Err(format!("bound {} does not cover {:?}", x.bound(), got));
                }
                Ok(())
            }
            /// `some` must be given iff `may` (the declared bounds leave room); refusing otherwise is required.
            fn opt_is(x: Option<SecretSigned<T>>, may: bool, want: &Int) -> Result<(), String> {
                match (x, may) {
                    (Some(x), true) => is(&x, want),
                    (None, false) => Ok(()),
                    (Some(x), false) => Err(format!("returned {:?} (bound {}) although the bounds leave no room for {:?}", val(&x), x.bound(), want)),
                    (None, true) => Err(format!("refused a representable result {:?}", want)),
                }
            }
            fn panics_or_is(x: Result<SecretSigned<T>, String>, may: bool, want: &Int) -> Result<(), String> {
                opt_is(x.ok(), may, want)
            }

            pub fn run(c: &Ctx, idx: u64) {
                let mut rng = rng_for(concat!("c01", stringify!($mod)), idx);
                let rng = &mut rng;
                let max = BITS - 1;
                let lim = match rng.next_u32() % 3 {
                    0 => max,
                    1 => BITS / 2,
                    _ => 1 + rng.next_u32() % max,
                };
                let a = signed(rng, lim);
                let lim2 = if rng.next_u32() & 1 == 0 { max } else { BITS - lim.min(max) };
                let b = if rng.next_u32() % 12 == 0 { a.neg() } else if rng.next_u32() % 12 == 0 { a.clone() } else { signed(rng, lim2.min(max)) };
                let ba = bound_for(rng, &a.mag, max);
                let bb = bound_for(rng, &b.mag, max);
                let desc = || format!("{} bits, a={:?} bound {}, b={:?} bound {}", BITS, a, ba, b, bb);
                c.distinct(desc().as_bytes());
                c.sample("operands", desc());
                let x = ss(&a, ba);
                let y = ss(&b, bb);
                let px = ps(&a, ba);
                let py = ps(&b, bb);

                c.case("views", &desc, || {
                    is(&x, &a)?;
                    pis(&px, &a)?;
                    is(&SecretSigned::<T>::zero(), &Int::zero())?;
                    pis(&PublicSigned::<T>::zero(), &Int::zero())?;
                    pis(&PublicSigned::<T>::one(), &Int::small(1))
                });
                c.case("neg", &desc, || {
                    is(&x.neg(), &a.neg())?;
                    is(&(-&x), &a.neg())?;
                    is(&(-x.clone()), &a.neg())?;
                    pis(&px.neg(), &a.neg())?;
                    pis(&(-px), &a.neg())
                });
                let room_add = ba.max(bb) + 1 < BITS;
                let room_mul = ba + bb < BITS;
                let (s, d, m) = (a.add(&b), a.sub(&b), a.mul(&b));
                c.case("add", &desc, || {
                    opt_is(opt(x.checked_add(&y)), room_add, &s)?;
                    opt_is(opt(x.checked_add(&py)), room_add, &s)?;
                    panics_or_is(no_panic(|| x.clone() + y.clone()), room_add, &s)?;
                    panics_or_is(no_panic(|| x.clone() + &y), room_add, &s)?;
                    panics_or_is(no_panic(|| x.clone() + py), room_add, &s)
                });
                c.case("sub", &desc, || {
                    opt_is(opt(x.checked_sub(&y)), room_add, &d)?;
                    panics_or_is(no_panic(|| x.clone() - y.clone()), room_add, &d)
                });
                c.case("mul", &desc, || {
                    opt_is(opt(x.checked_mul(&y)), room_mul, &m)?;
                    opt_is(opt(x.checked_mul(&py)), room_mul, &m)?;
                    panics_or_is(no_panic(|| x.clone() * y.clone()), room_mul, &m)?;
                    panics_or_is(no_panic(|| x.clone() * &y), room_mul, &m)?;
                    panics_or_is(no_panic(|| x.clone() * py), room_mul, &m)?;
                    panics_or_is(no_panic(|| &x * py), room_mul, &m)
                });
                c.case("widen", &desc, || {
                    is(&x.to_wide::<W>(), &a)?;
                    is(&x.to_wide::<XW>(), &a)?;
                    pis(&px.to_wide::<W>(), &a)?;
                    let w: SecretSigned<W> = x.mul_wide_public(&py);
                    is(&w, &m)?;
                    if w.bound() < m.mag.bits() {
                        return Err("bound".into());
                    }
                    // a wider public operand
                    let e = Int::new(b.neg, b.mag.shl(BITS).add(&a.mag));
                    let pw = PublicSigned::<W>::new_from_unsigned(twos_of::<$W>(&e), 2 * BITS - 1).expect("fits");
                    let z: SecretSigned<Uint<{ $L + $W }>> = x.mul_wide_public(&pw);
                    is(&z, &a.mul(&e))?;
                    // plain helpers
                    let u = uint_of::<$L>(&a.mag);
                    let v = uint_of::<$L>(&b.mag);
                    let prod: W = u.mul_wide(&v);
                    if nat(&prod) != a.mag.mul(&b.mag) {
                        return Err("mul_wide".into());
                    }
                    let ext: W = Extendable::to_wide(&u);
                    if nat(&ext) != a.mag {
                        return Err("to_wide".into());
                    }
                    if <T as Extendable<W>>::try_from_wide(&ext) != Some(u) {
                        return Err("try_from_wide of a value that fits".into());
                    }
                    let back = <T as Extendable<W>>::try_from_wide(&prod);
                    let fits = a.mag.mul(&b.mag).bits() <= BITS;
                    match back {
                        Some(z) if fits && nat(&z) == a.mag.mul(&b.mag) => {}
                        None if !fits => {}
                        z => return Err(format!("try_from_wide({:?}) = {:?}", nat(&prod), z.map(|z| nat(&z)))),
                    }
                    let over = Nat::pow2(BITS).add(&a.mag);
                    if <T as Extendable<W>>::try_from_wide(&uint_of::<$W>(&over)).is_some() {
                        return Err("try_from_wide dropped a high bit".into());
                    }
                    let su = opt(SecretUnsigned::new(Secret::init_with(|| u), ba)).ok_or("SecretUnsigned::new refused")?;
                    let sw: SecretUnsigned<W> = su.to_wide();
                    if nat(sw.expose_secret()) != a.mag || sw.bound() != ba {
                        return Err("SecretUnsigned::to_wide".into());
                    }
                    let secw: Secret<W> = Secret::init_with(|| u).to_wide();
                    if nat(secw.expose_secret()) != a.mag {
                        return Err("Secret::to_wide".into());
                    }
                    Ok(())
                });
                // constructors: accepted exactly when the value fits the bound and the bound fits the type
                let raw_bits = if rng.next_u32() & 1 == 0 { BITS } else { max };
                let raw = mag(rng, raw_bits);
                let tb = match rng.next_u32() % 4 {
                    0 => raw.bits().saturating_sub(1),
                    1 => raw.bits(),
                    2 => BITS - 1 + rng.next_u32() % 3,
                    _ => rng.next_u32() % (BITS + 2),
                };
                let desc2 = || format!("{} bits, raw={:?} bound {}", BITS, raw, tb);
                let u = uint_of::<$L>(&raw);
                let sv = int_of(&u);
                let in_twos = tb < BITS && sv.mag.bits() <= tb;
                let in_pos = tb < BITS && raw.bits() <= tb;
                c.case("constructors", &desc2, || {
                    let sec = || Secret::init_with(|| u);
                    opt_is(opt(SecretSigned::new_from_unsigned(sec(), tb)), in_twos, &sv).map_err(|e| format!("new_from_unsigned: {}", e))?;
                    opt_is(opt(SecretSigned::new_positive(sec(), tb)), in_pos, &Int::from(raw.clone())).map_err(|e| format!("SecretSigned::new_positive: {}", e))?;
                    match (PublicSigned::<T>::new_from_unsigned(u, tb), in_twos) {
                        (Some(p), true) => pis(&p, &sv)?,
                        (None, false) => {}
                        (p, _) => return Err(format!("PublicSigned::new_from_unsigned: {:?}", p.map(|p| pval(&p)))),
                    }
                    match (PublicSigned::<T>::new_positive(u, tb), in_pos) {
                        (Some(p), true) => pis(&p, &Int::from(raw.clone()))?,
                        (None, false) => {}
                        (p, _) => return Err(format!("PublicSigned::new_positive: {:?}", p.map(|p| pval(&p)))),
                    }
                    match (opt(SecretUnsigned::new(sec(), tb)), tb <= BITS && raw.bits() <= tb) {
                        (Some(p), true) if nat(p.expose_secret()) == raw && p.bound() == tb && ch(p.is_zero()) == raw.is_zero() => {}
                        (None, false) => {}
                        (p, _) => return Err(format!("SecretUnsigned::new: {:?}", p.map(|p| nat(p.expose_secret())))),
                    }
                    Ok(())
                });
                // range predicates as bound-changing operations
                let exp = 1 + rng.next_u32() % (BITS + 1);
                let exp = if rng.next_u32() & 1 == 0 { (a.mag.bits() + rng.next_u32() % 2).max(1) } else { exp };
                let desc3 = || format!("{} exp {}", desc(), exp);
                c.case("ensure-range", &desc3, || {
                    let inr = a.in_exp_range(exp);
                    let got = opt(x.clone().ensure_exponent_range(exp));
                    // the value may be refused only if out of range or the bound would not fit the type
                    match got {
                        Some(z) => {
                            if !inr {
                                return Err(format!("accepted out of range {}", exp));
                            }
                            is(&z, &a)
                        }
                        None if inr && exp < BITS - 1 => Err(format!("refused in range {}", exp)),
                        None => Ok(()),
                    }
                });
                // modulo representation
                let mb = 2 + rng.next_u32() % (BITS - 2);
                let modulus = {
                    let m = mag(rng, mb);
                    if m.bits() < 2 { Nat::from(3) } else { m }
                };
                let r = match rng.next_u32() % 5 {
                    0 => modulus.shr(1),
                    1 => modulus.shr(1).add(&Nat::one()),
                    2 => modulus.sub(&Nat::one()),
                    3 => Nat::zero(),
                    _ => Nat::random_below(rng, &modulus),
                };
                let r = r.rem(&modulus);
                let desc4 = || format!("{} bits, r={:?} modulus={:?}", BITS, r, modulus);
                c.case("new_modulo", &desc4, || {
                    let nz = NonZero::new(uint_of::<$L>(&modulus)).unwrap();
                    let mbits = modulus.bits();
                    let half = modulus.shr(1);
                    let want = if r > half { Int::new(true, modulus.sub(&r)) } else { Int::from(r.clone()) };
                    // `modulus_bits - 1` is the declared bound; may be refused only if the value does not fit it
                    match opt(SecretSigned::new_modulo(Secret::init_with(|| uint_of::<$L>(&r)), &nz, mbits)) {
                        Some(z) => is(&z, &want),
                        None if want.mag.bits() > mbits - 1 => Ok(()),
                        None => Err(format!("refused {:?}", want)),
                    }
                });
                c.case("unsigned-ops", &desc4, || {
                    let q = Nat::random_below(&mut rng_for("q", idx), &modulus);
                    let su = opt(SecretUnsigned::new(Secret::init_with(|| uint_of::<$L>(&r)), modulus.bits())).ok_or("new")?;
                    let sq = opt(SecretUnsigned::new(Secret::init_with(|| uint_of::<$L>(&q)), modulus.bits())).ok_or("new")?;
                    let sm = Secret::init_with(|| NonZero::new(uint_of::<$L>(&modulus)).unwrap());
                    let z = su.add_mod(&sq, &sm);
                    let want = r.add(&q).rem(&modulus);
                    if nat(z.expose_secret()) != want || !want.fits(z.bound()) {
                        return Err(format!("add_mod {:?}, want {:?}", nat(z.expose_secret()), want));
                    }
                    let msk = uint_of::<$L>(&q);
                    let z = &su & msk;
                    let got = nat(z.expose_secret());
                    let w: Vec<u64> = uint_of::<$L>(&r).as_words().iter().zip(msk.as_words()).map(|(a, b)| a & b).collect();
                    if got != Nat::from_words(&w) || !got.fits(z.bound()) {
                        return Err("bitand".into());
                    }
                    Ok(())
                });
                c.case("select", &desc, || {
                    let (sa, sb) = (Secret::init_with(|| twos_of::<$L>(&a)), Secret::init_with(|| twos_of::<$L>(&b)));
                    for k in [0u8, 1] {
                        let z = Secret::<T>::conditional_select(&sa, &sb, Choice::from(k));
                        let want = if k == 0 { &a } else { &b };
                        if int_of(z.expose_secret()) != *want {
                            return Err(format!("select {}", k));
                        }
                    }
                    let (ua, ub) = (nat(sa.expose_secret()), nat(sb.expose_secret()));
                    use crypto_bigint::{WrappingAdd, WrappingMul, WrappingNeg, WrappingSub};
                    let full = Nat::pow2(BITS);
                    let chk = |n: &str, got: Nat, want: Nat| if got == want { Ok(()) } else { Err(format!("{}: {:?} want {:?}", n, got, want)) };
                    chk("wrapping_add", nat(sa.wrapping_add(&sb).expose_secret()), ua.add(&ub).rem(&full))?;
                    chk("wrapping_sub", nat(sa.wrapping_sub(&sb).expose_secret()), ua.add(&full).sub(&ub).rem(&full))?;
                    chk("wrapping_mul", nat(sa.wrapping_mul(&sb).expose_secret()), ua.mul(&ub).rem(&full))?;
                    chk("wrapping_neg", nat(sa.wrapping_neg().expose_secret()), full.sub(&ua).rem(&full))?;
                    if !ub.is_zero() {
                        let nz = NonZero::new(*sb.expose_secret()).unwrap();
                        let (q, r) = ua.divrem(&ub);
                        chk("div", nat((sa.clone() / nz).expose_secret()), q)?;
                        chk("rem", nat((&sa % &nz).expose_secret()), r)?;
                    }
                    Ok(())
                });
                c.case("encoding", &desc, || {
                    let u = twos_of::<$L>(&a);
                    let b = u.to_be_bytes();
                    if b.to_vec() != nat(&u).to_be_padded((BITS / 8) as usize) {
                        return Err(format!("to_be_bytes {}", hexs(&b)));
                    }
                    if <T as BoxedEncoding>::try_from_be_bytes(&b) != Ok(u) {
                        return Err("try_from_be_bytes".into());
                    }
                    if <T as BoxedEncoding>::try_from_be_bytes(&b[1..]).is_ok() {
                        return Err("short slice accepted".into());
                    }
                    let mut l = b.to_vec();
                    l.push(0);
                    if <T as BoxedEncoding>::try_from_be_bytes(&l).is_ok() {
                        return Err("long slice accepted".into());
                    }
                    let p = PublicUint::from(u);
                    if *p != u || p.clone().inner() != u || *p.as_ref() != u {
                        return Err("PublicUint".into());
                    }
                    Ok(())
                });
                // a chain of operations with an independent shadow value: the bound must cover at every step
                c.case("chains", &desc, || {
                    let mut acc = ss(&Int::zero(), 0);
                    let mut shadow = Int::zero();
                    let mut trace = String::new();
                    for step in 0..12 {
                        let small = 1 + rng.next_u32() % (BITS / 6);
                        let v = signed(rng, small);
                        let bv = bound_for(rng, &v.mag, small);
                        let op = rng.next_u32() % 5;
                        trace += &format!("{}:{}:{:?}/{} ", step, op, v, bv);
                        let o = ss(&v, bv);
                        let po = ps(&v, bv);
                        let (r, w) = match op {
                            0 => (opt(acc.checked_add(&o)), shadow.add(&v)),
                            1 => (opt(acc.checked_sub(&o)), shadow.sub(&v)),
                            2 => (opt(acc.checked_mul(&po)), shadow.mul(&v)),
                            3 => (opt(acc.checked_add(&po)), shadow.add(&v)),
                            _ => (Some(acc.neg()), shadow.neg()),
                        };
                        match r {
                            Some(z) => {
                                is(&z, &w).map_err(|e| format!("{} after {}", e, trace))?;
                                acc = z;
                                shadow = w;
                            }
                            None => break,
                        }
                    }
                    Ok(())
                });
                c.case("sum", &desc, || {
                    let n = rng.next_u32() % 9;
                    let vs: Vec<Int> = (0..n).map(|_| signed(rng, BITS / 2)).collect();
                    let xs: Vec<SecretSigned<T>> = vs.iter().map(|v| ss(v, bound_for(&mut rng_for("s", idx), &v.mag, BITS / 2))).collect();
                    let total: SecretSigned<T> = xs.iter().sum();
                    let want = vs.iter().fold(Int::zero(), |x, y| x.add(y));
                    is(&total, &want)
                });
            }
        }
    };
}
width!(w64, 1, 2, 4);
width!(w128, 2, 4, 8);
width!(w256, 4, 8, 16);
width!(w1024, 16, 32, 64);
width!(w2048, 32, 64, 128);

pub fn main() -> i32 {
    let c = Ctx::new("C01");
    c.par(scale(40_000, 1_500_000), |i| w64::run(&c, i));
    c.par(scale(40_000, 1_500_000), |i| w128::run(&c, i));
    c.par(scale(25_000, 1_000_000), |i| w256::run(&c, i));
    c.par(scale(5_000, 200_000), |i| w1024::run(&c, i));
    c.par(scale(2_000, 80_000), |i| w2048::run(&c, i));
    c.finish(
        "operand pairs with boundary-heavy magnitudes (powers of two and neighbours, carry runs, extremes) and exact/maximal/intermediate declared bounds, in five widths; every operator in every overload; a case is non-trivial as every operand tuple is distinct (counted by hash)",
        &["the reference big integers (schoolbook, in the harness) are right"],
    )
}
