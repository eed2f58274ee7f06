// C04: scalar field, curve group, conversions and secret splitting against an independent reference.
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::util::*;
use crate::curve::{secret_split, Point, Scalar};
use crate::dev::TestParams;
use crate::k256::{ProductionParams112, ProductionParams128};
use crate::paillier::PaillierParams;
use crate::params::*;
use crate::tools::Secret;
use crate::uint::*;
use crypto_bigint::subtle::{Choice, ConditionallyNegatable, ConditionallySelectable};
use crypto_bigint::Bounded;

fn interesting(rng: &mut Rng, n: &Nat) -> Nat {
    match rng.next_u32() % 10 {
        0 => Nat::zero(),
        1 => Nat::one(),
        2 => n.sub(&Nat::one()),
        3 => n.shr(1),
        4 => n.shr(1).add(&Nat::one()),
        5 => Nat::from(rng.next_u32() as u64).rem(n),
        6 => Nat::pow2(rng.next_u32() % n.bits()).rem(n),
        _ => Nat::random_below(rng, n),
    }
}

fn eqs<P: SchemeParams>(what: &str, got: &Scalar<P>, want: &Nat) -> Result<(), String> {
    let g = sc(got);
    if g != *want {
        return Err(format!("{}: got {:?}, want {:?}", what, g, want));
    }
    Ok(())
}
fn eqp<P: SchemeParams>(cr: &CurveRef, what: &str, got: &Point<P>, want: &Aff) -> Result<(), String> {
    let g = aff(got);
    if g != *want {
        return Err(format!("{}: got {:?}, want {:?}", what, g, want));
    }
    if let Some(w) = want {
        if !cr.on_curve(w) {
            return Err("off curve".into());
        }
    }
    Ok(())
}

fn scalars<P: SchemeParams>(c: &Ctx, cr: &CurveRef, name: &str, idx: u64) {
    let mut rng = rng_for(&format!("c04s{}", name), idx);
    let n = &cr.n;
    let a = interesting(&mut rng, n);
    let b = interesting(&mut rng, n);
    let (x, y) = (mk_sc::<P>(cr, &a), mk_sc::<P>(cr, &b));
    let desc = || format!("{} a={:?} b={:?}", name, a, b);
    c.distinct(desc().as_bytes());
    c.sample("scalars", desc());
    let sum = a.add(&b).rem(n);
    let dif = a.add(n).sub(&b).rem(n);
    let prod = a.mul(&b).rem(n);
    let nega = n.sub(&a).rem(n);
    c.case("scalar-ring", &desc, || {
        eqs("add", &(x + y), &sum)?;
        eqs("add ref", &(&x + &y), &sum)?;
        let mut t = x;
        t += &y;
        eqs("add_assign", &t, &sum)?;
        eqs("sub", &(x - y), &dif)?;
        let mut t = x;
        t -= &y;
        eqs("sub_assign", &t, &dif)?;
        eqs("mul", &(x * y), &prod)?;
        eqs("mul ref", &(x * &y), &prod)?;
        let mut t = x;
        t *= &y;
        eqs("mul_assign", &t, &prod)?;
        eqs("neg", &-x, &nega)?;
        eqs("sum", &[x, y, x].iter().sum::<Scalar<P>>(), &sum.add(&a).rem(n))?;
        eqs("sum owned", &vec![x, y, x].into_iter().sum::<Scalar<P>>(), &sum.add(&a).rem(n))?;
        eqs("empty sum", &Vec::<Scalar<P>>::new().into_iter().sum::<Scalar<P>>(), &Nat::zero())?;
        eqs("product", &vec![x, y, y].into_iter().product::<Scalar<P>>(), &prod.mul(&b).rem(n))?;
        eqs("empty product", &Vec::<Scalar<P>>::new().into_iter().product::<Scalar<P>>(), &Nat::one())?;
        eqs("ZERO", &Scalar::<P>::ZERO, &Nat::zero())?;
        eqs("ONE", &Scalar::<P>::ONE, &Nat::one())?;
        let k = Nat::from(0xffff_0f07u64 - 1).min(n.sub(&Nat::one()));
        let small = a.0.first().copied().unwrap_or(0) & 0x7fff_ffff;
        eqs("from u64", &Scalar::<P>::from(small), &Nat::from(small).rem(n))?;
        let _ = k;
        let inv: Option<Scalar<P>> = x.invert().into();
        match (inv, a.invmod(n)) {
            (Some(i), Some(w)) => eqs("invert", &i, &w)?,
            (None, None) => {}
            (g, w) => return Err(format!("invert: {:?} want {:?}", g.map(|g| sc(&g)), w)),
        }
        for k in [0u8, 1] {
            let z = Scalar::<P>::conditional_select(&x, &y, Choice::from(k));
            eqs("select", &z, if k == 0 { &a } else { &b })?;
        }
        if (x == y) != (a == b) || x.cmp(&y) != a.cmp(&b) {
            return Err("comparison".into());
        }
        Ok(())
    });
    c.case("secret-scalar-ring", &desc, || {
        let s = |v: &Scalar<P>| {
            let v = *v;
            Secret::init_with(move || v)
        };
        let e = |w: &str, g: Secret<Scalar<P>>, want: &Nat| eqs(w, g.expose_secret(), want);
        let (sx, sy) = (s(&x), s(&y));
        e("s+s", sx.clone() + sy.clone(), &sum)?;
        e("s+&s", sx.clone() + &sy, &sum)?;
        e("&s+s", &sx + sy.clone(), &sum)?;
        e("&s+&s", &sx + &sy, &sum)?;
        e("s+&v", sx.clone() + &y, &sum)?;
        e("&s+&v", &sx + &y, &sum)?;
        let mut t = sx.clone();
        t += &y;
        e("s+=&v", t, &sum)?;
        let mut t = sx.clone();
        t += sy.clone();
        e("s+=s", t, &sum)?;
        e("s-&v", sx.clone() - &y, &dif)?;
        e("s-s", sx.clone() - sy.clone(), &dif)?;
        e("s*&v", sx.clone() * &y, &prod)?;
        e("&s*&v", &sx * &y, &prod)?;
        e("&s*v", &sx * y, &prod)?;
        e("s*v", sx.clone() * y, &prod)?;
        e("s*s", sx.clone() * sy.clone(), &prod)?;
        e("s*&s", sx.clone() * &sy, &prod)?;
        e("&s*&s", &sx * &sy, &prod)?;
        let mut t = sx.clone();
        t *= &y;
        e("s*=&v", t, &prod)?;
        e("-s", -&sx, &nega)?;
        e("sum", [sx.clone(), sy.clone(), sx.clone()].iter().sum(), &sum.add(&a).rem(n))?;
        e("sum owned", vec![sx.clone(), sy.clone(), sx.clone()].into_iter().sum(), &sum.add(&a).rem(n))?;
        e("empty sum", Vec::<Secret<Scalar<P>>>::new().into_iter().sum(), &Nat::zero())?;
        for k in [0u8, 1] {
            e("select", Secret::<Scalar<P>>::conditional_select(&sx, &sy, Choice::from(k)), if k == 0 { &a } else { &b })?;
        }
        Ok(())
    });
    c.case("scalar-bytes", &desc, || {
        let by = x.to_be_bytes();
        if by.to_vec() != a.to_be_padded(cr.len) || Scalar::<P>::repr_len() != cr.len {
            return Err(format!("to_be_bytes {}", hexs(&by)));
        }
        eqs("try_from_be_bytes", &Scalar::<P>::try_from_be_bytes(&by)?, &a)?;
        eqs("TryFrom", &Scalar::<P>::try_from(&by[..])?, &a)?;
        // exactly the canonical encodings of the exact length are accepted
        for d in 0..3u64 {
            let v = n.add(&Nat::from(d));
            if v.bits() <= 8 * cr.len as u32 && Scalar::<P>::try_from_be_bytes(&v.to_be_padded(cr.len)).is_ok() {
                return Err(format!("accepted non-canonical order+{}", d));
            }
        }
        let raw = Nat::random_bits(&mut rng, 8 * cr.len as u32);
        if Scalar::<P>::try_from_be_bytes(&raw.to_be_padded(cr.len)).is_ok() != (raw < *n) {
            return Err(format!("acceptance of {:?}", raw));
        }
        for l in [0, 1, cr.len - 1, cr.len + 1, 2 * cr.len] {
            if Scalar::<P>::try_from_be_bytes(&vec![0u8; l]).is_ok() {
                return Err(format!("accepted length {}", l));
            }
        }
        // hash reduction is plain reduction
        for v in [&raw, n, &n.add(&a).rem(&Nat::pow2(8 * cr.len as u32)), &Nat::pow2(8 * cr.len as u32).sub(&Nat::one()), &a] {
            eqs("from_reduced_bytes", &Scalar::<P>::from_reduced_bytes(v.to_be_padded(cr.len)), &v.rem(n))?;
        }
        // hash stream: twice the scalar length, reduced; either order of the two halves is a faithful reading
        let script: Vec<u8> = match idx % 4 {
            0 => vec![0xff; 2 * cr.len],
            _ => {
                let mut v = vec![0u8; 2 * cr.len];
                rng.fill_bytes(&mut v);
                v
            }
        };
        let ulen = cr.len.max(8); // the curve's integer type may be wider than its scalars
        let mut x = FakeXof::new(script, idx);
        let mut z = x.clone();
        let got = sc(&Scalar::<P>::from_xof_reader(&mut x));
        let consumed = x.pos;
        let mut buf = vec![0u8; consumed];
        digest::XofReader::read(&mut z, &mut buf);
        let be = Nat::from_be(&buf);
        let sw = Nat::from_be(&[&buf[consumed / 2..], &buf[..consumed / 2]].concat());
        if consumed < 2 * cr.len || (got != be.rem(n) && got != sw.rem(n)) {
            return Err(format!("from_xof_reader({}) = {:?} (order of halves: {:?} / {:?})", hexs(&buf), got, be.rem(n), sw.rem(n)));
        }
        let _ = ulen;
        Ok(())
    });
}

fn conversions<P: SchemeParams>(c: &Ctx, cr: &CurveRef, name: &str, idx: u64) {
    type U<P> = <<P as SchemeParams>::Paillier as PaillierParams>::Uint;
    type W<P> = <<P as SchemeParams>::Paillier as PaillierParams>::WideUint;
    let mut rng = rng_for(&format!("c04c{}", name), idx);
    let n = &cr.n;
    let a = interesting(&mut rng, n);
    let x = mk_sc::<P>(cr, &a);
    let ub = U::<P>::BITS - 1;
    let wb = W::<P>::BITS - 1;
    let big = |rng: &mut Rng, bits: u32| -> Int {
        let m = match rng.next_u32() % 8 {
            0 => Nat::pow2(bits).sub(&Nat::one()),
            1 => n.clone(),
            2 => n.add(&Nat::one()),
            3 => n.sub(&Nat::one()),
            4 => n.mul(&Nat::from(rng.next_u32() as u64)),
            5 => Nat::pow2(rng.next_u32() % bits),
            _ => {
                let b = 1 + rng.next_u32() % bits;
                Nat::random_bits(rng, b)
            }
        };
        Int::new(rng.next_u32() & 1 == 1, m)
    };
    let u = big(&mut rng, ub);
    let w = big(&mut rng, wb);
    let desc = || format!("{} a={:?} u={:?} w={:?}", name, a, u, w);
    c.distinct(desc().as_bytes());
    c.case("conversions", &desc, || {
        let p = public_signed_from_scalar::<P>(&x);
        if pval(&p) != Int::from(a.clone()) || !a.fits(p.bound()) {
            return Err(format!("public_signed_from_scalar: {:?} bound {}", pval(&p), p.bound()));
        }
        if p.bound() != n.bits() {
            return Err(format!("bound {} of a converted scalar depends on the value", p.bound()));
        }
        let s = secret_signed_from_scalar::<P>(&Secret::init_with(|| x));
        let want = if a > n.shr(1) { Int::new(true, n.sub(&a)) } else { Int::from(a.clone()) };
        if sval(&s) != want || !want.mag.fits(s.bound()) {
            return Err(format!("secret_signed_from_scalar: {:?} bound {}, want {:?}", sval(&s), s.bound(), want));
        }
        let back = secret_scalar_from_signed::<P>(&s);
        eqs("round trip", back.expose_secret(), &a)?;
        let pu: PublicSigned<U<P>> = mk_public(&u, ub);
        eqs("scalar_from_signed", &scalar_from_signed::<P>(&pu), &u.modulo(n))?;
        let su: SecretSigned<U<P>> = mk_secret(&u, ub);
        eqs("secret_scalar_from_signed", secret_scalar_from_signed::<P>(&su).expose_secret(), &u.modulo(n))?;
        let pw: PublicSigned<W<P>> = mk_public(&w, wb);
        eqs("scalar_from_wide_signed", &scalar_from_wide_signed::<P>(&pw), &w.modulo(n))?;
        let sw: SecretSigned<W<P>> = mk_secret(&w, wb);
        eqs("secret_scalar_from_wide_signed", secret_scalar_from_wide_signed::<P>(&sw).expose_secret(), &w.modulo(n))
    });
}

fn points<P: SchemeParams>(c: &Ctx, cr: &CurveRef, name: &str, idx: u64) {
    let mut rng = rng_for(&format!("c04p{}", name), idx);
    let n = &cr.n;
    let a = interesting(&mut rng, n);
    let b = if idx % 9 == 0 { a.clone() } else if idx % 9 == 1 { n.sub(&a).rem(n) } else { interesting(&mut rng, n) };
    let k = interesting(&mut rng, n);
    let (x, y, z) = (mk_sc::<P>(cr, &a), mk_sc::<P>(cr, &b), mk_sc::<P>(cr, &k));
    let desc = || format!("{} a={:?} b={:?} k={:?}", name, a, b, k);
    c.distinct(desc().as_bytes());
    c.sample("points", desc());
    c.case("group", &desc, || {
        let g = cr.gen();
        eqp(cr, "generator", &Point::<P>::generator(), &g)?;
        eqp(cr, "identity", &Point::<P>::identity(), &None)?;
        let (ra, rb) = (cr.mul(&a, &g), cr.mul(&b, &g));
        let (pa, pb) = (x.mul_by_generator(), y.mul_by_generator());
        eqp(cr, "mul_by_generator", &pa, &ra)?;
        eqp(cr, "mul_by_generator", &pb, &rb)?;
        let sum = cr.add(&ra, &rb);
        eqp(cr, "add", &(pa + pb), &sum)?;
        eqp(cr, "homomorphism", &(x + y).mul_by_generator(), &sum)?;
        eqp(cr, "sum", &[pa, pb].iter().sum::<Point<P>>(), &sum)?;
        eqp(cr, "sum owned", &vec![pa, pb].into_iter().sum::<Point<P>>(), &sum)?;
        eqp(cr, "empty sum", &Vec::<Point<P>>::new().into_iter().sum::<Point<P>>(), &None)?;
        let ka = cr.mul(&k, &ra);
        eqp(cr, "point*scalar", &(pa * z), &ka)?;
        eqp(cr, "point*&scalar", &(pa * &z), &ka)?;
        eqp(cr, "&point*&scalar", &(&pa * &z), &ka)?;
        eqp(cr, "&point*scalar", &(&pa * z), &ka)?;
        let sz = Secret::init_with(|| z);
        eqp(cr, "point*secret", &(pa * sz.clone()), &ka)?;
        eqp(cr, "point*&secret", &(pa * &sz), &ka)?;
        eqp(cr, "&point*secret", &(&pa * sz.clone()), &ka)?;
        eqp(cr, "&point*&secret", &(&pa * &sz), &ka)?;
        eqp(cr, "secret mul_by_generator", &sz.mul_by_generator(), &cr.mul(&k, &g))?;
        if (pa == pb) != (a == b) {
            return Err("point equality".into());
        }
        // encodings
        let enc = pa.to_compressed_array();
        let want = cr.compressed(&ra);
        if enc.len() != cr.len + 1 || (ra.is_some() && enc[..] != want[..]) {
            return Err(format!("compressed {} want {}", hexs(&enc), hexs(&want)));
        }
        eqp(cr, "decompress", &Point::<P>::try_from_compressed_bytes(&enc)?, &ra)?;
        eqp(cr, "TryFrom", &Point::<P>::try_from(&enc[..])?, &ra)?;
        if ra.is_some() {
            eqs("x_coordinate", &pa.x_coordinate(), &ra.clone().unwrap().0.rem(n))?;
        }
        // decoding accepts an x coordinate exactly when it is on the curve
        for t in 0..4u8 {
            let mut xb = enc.to_vec();
            xb[0] = 2 + (t & 1);
            let l = xb.len();
            xb[l - 1] = xb[l - 1].wrapping_add(t);
            let x = Nat::from_be(&xb[1..]);
            let got = no_panic(|| Point::<P>::try_from_compressed_bytes(&xb));
            let rhs = x.mul(&x).mul(&x).add(&cr.a.mul(&x)).add(&cr.b).rem(&cr.p);
            let is_point = x < cr.p && (rhs.is_zero() || rhs.powmod(&cr.p.shr(1), &cr.p) == Nat::one());
            match got {
                Ok(Ok(pt)) => {
                    if !is_point || aff(&pt).map_or(true, |(px, py)| px != x || py.is_odd() != (t & 1 == 1)) {
                        return Err(format!("decoded {} as {:?}", hexs(&xb), aff(&pt)));
                    }
                }
                Ok(Err(_)) if is_point => return Err(format!("refused the point {}", hexs(&xb))),
                Ok(Err(_)) => {}
                Err(p) => return Err(format!("decoding {}: {}", hexs(&xb), p)),
            }
        }
        match pa.to_verifying_key() {
            Some(vk) => {
                if ra.is_none() {
                    return Err("verifying key of the identity".into());
                }
                eqp(cr, "from_verifying_key", &Point::<P>::from_verifying_key(&vk), &ra)?;
            }
            None if ra.is_none() => {}
            None => return Err("no verifying key".into()),
        }
        Ok(())
    });
    if a != Nat::zero() {
        c.case("signing-key", &desc, || {
            let s = Secret::init_with(|| x);
            let sk = s.to_signing_key().ok_or("no signing key for a nonzero scalar")?;
            eqp(cr, "signing key", &Point::<P>::from_verifying_key(sk.verifying_key()), &cr.mul(&a, &cr.gen()))
        });
    } else if Secret::init_with(|| x).to_signing_key().is_some() {
        c.violation("signing-key", "signing-key", "a signing key of the zero scalar");
    }
}

fn splitting<P: SchemeParams>(c: &Ctx, cr: &CurveRef, name: &str, idx: u64) {
    let mut rng = rng_for(&format!("c04x{}", name), idx);
    let a = interesting(&mut rng, &cr.n);
    let num = 1 + (idx % 13) as usize;
    let desc = || format!("{} secret {:?} into {}", name, a, num);
    c.distinct(desc().as_bytes());
    c.case("secret-split", &desc, || {
        let x = mk_sc::<P>(cr, &a);
        let mut prev: Option<Vec<Nat>> = None;
        for _ in 0..3 {
            let parts = secret_split::<P>(&mut rng, Secret::init_with(|| x), num);
            if parts.len() != num {
                return Err(format!("{} parts", parts.len()));
            }
            let vals: Vec<Nat> = parts.iter().map(|s| sc(s.expose_secret())).collect();
            let sum = vals.iter().fold(Nat::zero(), |t, v| t.add(v)).rem(&cr.n);
            if sum != a {
                return Err(format!("sums to {:?}", sum));
            }
            if num > 1 {
                // every share is re-randomised, and no share carries the secret alone (chance 2^-32 for the tiny curve)
                if let Some(p) = &prev {
                    if p.iter().zip(&vals).any(|(u, v)| u == v) {
                        return Err("a share is the same in two splits".into());
                    }
                }
                for i in 0..num {
                    for j in 0..i {
                        if vals[i] == vals[j] && a != vals[i].add(&vals[j]).rem(&cr.n) {
                            return Err("two equal shares".into());
                        }
                    }
                }
                if vals.iter().any(|v| *v == a && !a.is_zero()) || vals.iter().filter(|v| v.is_zero()).count() > 0 {
                    return Err("a share equals the secret or zero".into());
                }
                prev = Some(vals);
            }
        }
        Ok(())
    });
}

fn curve<P: SchemeParams>(c: &Ctx, cr: CurveRef, name: &str, k: u64) {
    let cr = &cr;
    if order_of::<P>() != cr.n {
        c.violation("order", "order", format!("{}: curve order differs from the reference", name));
    }
    c.par(scale(3000, 100_000) * k, |i| scalars::<P>(c, cr, name, i));
    c.par(scale(1500, 60_000) * k, |i| conversions::<P>(c, cr, name, i));
    c.par(scale(260, 8_000) * k, |i| points::<P>(c, cr, name, i));
    c.par(scale(400, 10_000) * k, |i| splitting::<P>(c, cr, name, i));
}

pub fn main() -> i32 {
    let c = Ctx::new("C04");
    curve::<TestParams>(&c, CurveRef::tiny32(), "tiny32", 8);
    curve::<ProductionParams112>(&c, CurveRef::secp256k1(), "secp256k1/112", 1);
    let cr = CurveRef::secp256k1();
    c.par(scale(500, 30_000), |i| conversions::<ProductionParams128>(&c, &cr, "secp256k1/128", i));
    c.finish(
        "scalar pairs, point triples, signed integers and split requests with boundary-heavy values on a 32-bit curve and secp256k1; every operator overload, plain and secret-wrapped. Distinct = distinct operand tuples",
        &["the harness's affine curve reference and published secp256k1 constants", "coincidental equality of random 32-bit shares (2^-32 each) is excluded by fixed seeds"],
    )
}
