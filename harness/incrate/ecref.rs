// Independent affine elliptic-curve reference and ECDSA verifier over the harness's big integers.
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use crate::curve::{Point, Scalar};
use crate::params::SchemeParams;

#[derive(Clone, Debug)]
pub struct CurveRef {
    pub p: Nat,
    pub a: Nat,
    pub b: Nat,
    pub n: Nat,
    pub g: (Nat, Nat),
    pub len: usize,
}
/// None is the point at infinity.
pub type Aff = Option<(Nat, Nat)>;

impl CurveRef {
    pub fn secp256k1() -> Self {
        CurveRef {
            p: Nat::from_hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
            a: Nat::zero(),
            b: Nat::from(7),
            n: Nat::from_hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
            g: (
                Nat::from_hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
                Nat::from_hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
            ),
            len: 32,
        }
    }
    pub fn tiny32() -> Self {
        CurveRef {
            p: Nat::from(0xffffff67),
            a: Nat::from(0xffffff67 - 3),
            b: Nat::from(8),
            n: Nat::from(0xffff0f07),
            g: (Nat::from(4274000713), Nat::from(443355223)),
            len: 24,
        }
    }
    fn fsub(&self, a: &Nat, b: &Nat) -> Nat {
        a.add(&self.p).sub(b).rem(&self.p)
    }
    pub fn on_curve(&self, pt: &(Nat, Nat)) -> bool {
        let (x, y) = pt;
        if *x >= self.p || *y >= self.p {
            return false;
        }
        let rhs = x.mul(x).mul(x).add(&self.a.mul(x)).add(&self.b).rem(&self.p);
        y.mul(y).rem(&self.p) == rhs
    }
    pub fn neg(&self, a: &Aff) -> Aff {
        a.as_ref().map(|(x, y)| (x.clone(), self.p.sub(y).rem(&self.p)))
    }
    pub fn add(&self, a: &Aff, b: &Aff) -> Aff {
        let ((x1, y1), (x2, y2)) = match (a, b) {
            (None, _) => return b.clone(),
            (_, None) => return a.clone(),
            (Some(a), Some(b)) => (a, b),
        };
        let l = if x1 == x2 {
            if y1.add(y2).rem(&self.p).is_zero() {
                return None;
            }
            let num = Nat::from(3).mul(x1).mul(x1).add(&self.a).rem(&self.p);
            num.mul(&y1.add(y1).rem(&self.p).invmod(&self.p).unwrap()).rem(&self.p)
        } else {
            let num = self.fsub(y2, y1);
            num.mul(&self.fsub(x2, x1).invmod(&self.p).unwrap()).rem(&self.p)
        };
        let x3 = self.fsub(&l.mul(&l).rem(&self.p), &x1.add(x2).rem(&self.p));
        let y3 = self.fsub(&l.mul(&self.fsub(x1, &x3)).rem(&self.p), y1);
        Some((x3, y3))
    }
    /// Double-and-add in Jacobian coordinates (x = X/Z^2, y = Y/Z^3; Z = 0 is the point at infinity).
    pub fn mul(&self, k: &Nat, a: &Aff) -> Aff {
        let Some((x, y)) = a else { return None };
        let m = |u: &Nat, v: &Nat| u.mul(v).rem(&self.p);
        let sub = |u: &Nat, v: &Nat| self.fsub(u, v);
        let dbl = |q: &(Nat, Nat, Nat)| -> (Nat, Nat, Nat) {
            let (x, y, z) = q;
            if z.is_zero() || y.is_zero() {
                return (Nat::one(), Nat::one(), Nat::zero());
            }
            let yy = m(y, y);
            let s = m(&m(x, &yy), &Nat::from(4));
            let zz = m(z, z);
            let t = m(&m(x, x), &Nat::from(3)).add(&m(&self.a, &m(&zz, &zz))).rem(&self.p);
            let x3 = sub(&m(&t, &t), &s.add(&s).rem(&self.p));
            let y3 = sub(&m(&t, &sub(&s, &x3)), &m(&m(&yy, &yy), &Nat::from(8)));
            (x3, y3, m(&m(y, z), &Nat::from(2)))
        };
        let mut q = (Nat::one(), Nat::one(), Nat::zero());
        for i in (0..k.bits()).rev() {
            q = dbl(&q);
            if !k.bit(i) {
                continue;
            }
            if q.2.is_zero() {
                q = (x.clone(), y.clone(), Nat::one());
                continue;
            }
            let zz = m(&q.2, &q.2);
            let u = m(x, &zz);
            let s = m(y, &m(&zz, &q.2));
            let (h, r) = (sub(&u, &q.0), sub(&s, &q.1));
            if h.is_zero() {
                q = if r.is_zero() { dbl(&q) } else { (Nat::one(), Nat::one(), Nat::zero()) };
                continue;
            }
            let hh = m(&h, &h);
            let hhh = m(&hh, &h);
            let v = m(&q.0, &hh);
            let x3 = sub(&sub(&m(&r, &r), &hhh), &v.add(&v).rem(&self.p));
            let y3 = sub(&m(&r, &sub(&v, &x3)), &m(&q.1, &hhh));
            q = (x3, y3, m(&q.2, &h));
        }
        if q.2.is_zero() {
            return None;
        }
        let zi = q.2.invmod(&self.p).unwrap();
        let zi2 = m(&zi, &zi);
        Some((m(&q.0, &zi2), m(&q.1, &m(&zi2, &zi))))
    }
    pub fn gen(&self) -> Aff {
        Some(self.g.clone())
    }
    pub fn compressed(&self, a: &Aff) -> Vec<u8> {
        match a {
            None => vec![0],
            Some((x, y)) => {
                let mut v = vec![if y.is_odd() { 3 } else { 2 }];
                v.extend(x.to_be_padded(self.len));
                v
            }
        }
    }
    /// ECDSA verification from first principles. `z` is the message scalar.
    pub fn ecdsa_ok(&self, q: &Aff, z: &Nat, r: &Nat, s: &Nat) -> bool {
        if q.is_none() || r.is_zero() || s.is_zero() || *r >= self.n || *s >= self.n {
            return false;
        }
        let w = match s.invmod(&self.n) {
            Some(w) => w,
            None => return false,
        };
        let u1 = z.mul(&w).rem(&self.n);
        let u2 = r.mul(&w).rem(&self.n);
        match self.add(&self.mul(&u1, &self.gen()), &self.mul(&u2, q)) {
            None => false,
            Some((x, _)) => x.rem(&self.n) == *r,
        }
    }
}

pub fn sc<P: SchemeParams>(x: &Scalar<P>) -> Nat {
    Nat::from_be(&x.to_be_bytes())
}
pub fn mk_sc<P: SchemeParams>(c: &CurveRef, n: &Nat) -> Scalar<P> {
    Scalar::try_from_be_bytes(&n.rem(&c.n).to_be_padded(c.len)).expect("canonical")
}
pub fn aff<P: SchemeParams>(p: &Point<P>) -> Aff {
    use elliptic_curve::group::Curve as _;
    use elliptic_curve::sec1::ToEncodedPoint;
    let a = p.to_backend().to_affine();
    let e = a.to_encoded_point(false);
    match (e.x(), e.y()) {
        (Some(x), Some(y)) => Some((Nat::from_be(x), Nat::from_be(y))),
        _ => None,
    }
}
