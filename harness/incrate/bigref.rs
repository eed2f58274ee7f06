// Independent reference arithmetic (schoolbook, no dependency on crypto-bigint).
use std::cmp::Ordering;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec::Vec;

/// Natural number, little-endian limbs, no trailing zero limbs.
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Nat(pub Vec<u64>);

impl std::fmt::Debug for Nat {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "0x{}", self.hex())
    }
}

impl PartialOrd for Nat {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Nat {
    fn cmp(&self, o: &Self) -> Ordering {
        if self.0.len() != o.0.len() {
            return self.0.len().cmp(&o.0.len());
        }
        for i in (0..self.0.len()).rev() {
            if self.0[i] != o.0[i] {
                return self.0[i].cmp(&o.0[i]);
            }
        }
        Ordering::Equal
    }
}

impl Nat {
    pub fn zero() -> Self {
        Nat(vec![])
    }
    pub fn one() -> Self {
        Nat(vec![1])
    }
    pub fn from(x: u64) -> Self {
        if x == 0 {
            Nat(vec![])
        } else {
            Nat(vec![x])
        }
    }
    fn norm(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn from_be(b: &[u8]) -> Self {
        let mut v = vec![];
        for ch in b.rchunks(8) {
            let mut x = 0u64;
            for &c in ch {
                x = (x << 8) | c as u64;
            }
            v.push(x);
        }
        Nat(v).norm()
    }
    pub fn from_le(b: &[u8]) -> Self {
        let r: Vec<u8> = b.iter().rev().cloned().collect();
        Self::from_be(&r)
    }
    pub fn to_be(&self) -> Vec<u8> {
        let mut r: Vec<u8> = vec![];
        for x in self.0.iter().rev() {
            r.extend_from_slice(&x.to_be_bytes());
        }
        let n = r.iter().position(|x| *x != 0).unwrap_or(r.len());
        r[n..].to_vec()
    }
    pub fn to_be_padded(&self, n: usize) -> Vec<u8> {
        let v = self.to_be();
        assert!(v.len() <= n, "reference value does not fit");
        let mut r = vec![0u8; n - v.len()];
        r.extend_from_slice(&v);
        r
    }
    pub fn hex(&self) -> String {
        let mut s = String::new();
        for b in self.to_be() {
            s += &format!("{:02x}", b);
        }
        if s.is_empty() {
            s += "00";
        }
        s
    }
    pub fn from_hex(s: &str) -> Self {
        let s = s.trim_start_matches("0x");
        let s = if s.len() % 2 == 1 { format!("0{}", s) } else { s.into() };
        let b: Vec<u8> = (0..s.len() / 2)
            .map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap())
            .collect();
        Self::from_be(&b)
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_odd(&self) -> bool {
        self.0.first().map_or(false, |x| x & 1 == 1)
    }
    pub fn bits(&self) -> u32 {
        match self.0.last() {
            None => 0,
            Some(x) => 64 * self.0.len() as u32 - x.leading_zeros(),
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        self.0.get((i / 64) as usize).map_or(false, |x| (x >> (i % 64)) & 1 == 1)
    }
    pub fn pow2(e: u32) -> Self {
        let mut v = vec![0u64; (e / 64) as usize + 1];
        v[(e / 64) as usize] = 1 << (e % 64);
        Nat(v)
    }
    pub fn add(&self, o: &Self) -> Self {
        let n = self.0.len().max(o.0.len());
        let mut r = Vec::with_capacity(n + 1);
        let mut c = 0u128;
        for i in 0..n {
            let s = *self.0.get(i).unwrap_or(&0) as u128 + *o.0.get(i).unwrap_or(&0) as u128 + c;
            r.push(s as u64);
            c = s >> 64;
        }
        r.push(c as u64);
        Nat(r).norm()
    }
    /// Requires self >= o.
    pub fn sub(&self, o: &Self) -> Self {
        assert!(*self >= *o, "reference subtraction underflow");
        let mut r = Vec::with_capacity(self.0.len());
        let mut br = 0i128;
        for i in 0..self.0.len() {
            let mut s = self.0[i] as i128 - *o.0.get(i).unwrap_or(&0) as i128 - br;
            br = 0;
            if s < 0 {
                s += 1i128 << 64;
                br = 1;
            }
            r.push(s as u64);
        }
        Nat(r).norm()
    }
    pub fn mul(&self, o: &Self) -> Self {
        let mut r = vec![0u64; self.0.len() + o.0.len() + 1];
        for (i, &a) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, &b) in o.0.iter().enumerate() {
                let t = a as u128 * b as u128 + r[i + j] as u128 + c;
                r[i + j] = t as u64;
                c = t >> 64;
            }
            let mut k = i + o.0.len();
            while c > 0 {
                let t = r[k] as u128 + c;
                r[k] = t as u64;
                c = t >> 64;
                k += 1;
            }
        }
        Nat(r).norm()
    }
    pub fn shl(&self, n: u32) -> Self {
        if self.is_zero() {
            return Nat::zero();
        }
        let (w, b) = ((n / 64) as usize, n % 64);
        let mut r = vec![0u64; w];
        let mut c = 0u64;
        for &x in &self.0 {
            if b == 0 {
                r.push(x);
            } else {
                r.push((x << b) | c);
                c = x >> (64 - b);
            }
        }
        if b != 0 {
            r.push(c);
        }
        Nat(r).norm()
    }
    pub fn shr(&self, n: u32) -> Self {
        let (w, b) = ((n / 64) as usize, n % 64);
        if w >= self.0.len() {
            return Nat::zero();
        }
        let mut r = vec![];
        for i in w..self.0.len() {
            let lo = self.0[i] >> b;
            let hi = if b == 0 { 0 } else { self.0.get(i + 1).map_or(0, |x| x << (64 - b)) };
            r.push(lo | hi);
        }
        Nat(r).norm()
    }
    /// Knuth algorithm D.
    pub fn divrem(&self, d: &Self) -> (Self, Self) {
        assert!(!d.is_zero(), "reference division by zero");
        if self < d {
            return (Nat::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let dd = d.0[0] as u128;
            let mut q = vec![0u64; self.0.len()];
            let mut r = 0u128;
            for i in (0..self.0.len()).rev() {
                let cur = (r << 64) | self.0[i] as u128;
                q[i] = (cur / dd) as u64;
                r = cur % dd;
            }
            return (Nat(q).norm(), Nat::from(r as u64));
        }
        let s = d.0.last().unwrap().leading_zeros();
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        while u.len() < self.0.len() + 1 {
            u.push(0);
        }
        let n = v.len();
        let m = u.len() - n - 1;
        let mut q = vec![0u64; m + 1];
        let b = 1u128 << 64;
        for j in (0..=m).rev() {
            let num = ((u[j + n] as u128) << 64) | u[j + n - 1] as u128;
            let mut qh = num / v[n - 1] as u128;
            let mut rh = num % v[n - 1] as u128;
            while qh >= b || qh * v[n - 2] as u128 > ((rh << 64) | u[j + n - 2] as u128) {
                qh -= 1;
                rh += v[n - 1] as u128;
                if rh >= b {
                    break;
                }
            }
            let mut borrow = 0i128;
            let mut carry = 0u128;
            for i in 0..n {
                let p = qh * v[i] as u128 + carry;
                carry = p >> 64;
                let t = u[i + j] as i128 - borrow - (p as u64) as i128;
                u[i + j] = t as u64;
                borrow = if t < 0 { 1 } else { 0 };
            }
            let t = u[j + n] as i128 - borrow - carry as i128;
            u[j + n] = t as u64;
            if t < 0 {
                qh -= 1;
                let mut c = 0u128;
                for i in 0..n {
                    let t = u[i + j] as u128 + v[i] as u128 + c;
                    u[i + j] = t as u64;
                    c = t >> 64;
                }
                u[j + n] = (u[j + n] as u128 + c) as u64;
            }
            q[j] = qh as u64;
        }
        u.truncate(n);
        (Nat(q).norm(), Nat(u).norm().shr(s))
    }
    pub fn rem(&self, d: &Self) -> Self {
        self.divrem(d).1
    }
    pub fn mulmod(&self, o: &Self, m: &Self) -> Self {
        self.mul(o).rem(m)
    }
    pub fn powmod(&self, e: &Self, m: &Self) -> Self {
        let base = self.rem(m);
        let mut r = Nat::one().rem(m);
        for i in (0..e.bits()).rev() {
            r = r.mulmod(&r, m);
            if e.bit(i) {
                r = r.mulmod(&base, m);
            }
        }
        r
    }
    pub fn gcd(&self, o: &Self) -> Self {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let t = a.rem(&b);
            a = b;
            b = t;
        }
        a
    }
    pub fn invmod(&self, m: &Self) -> Option<Self> {
        // extended Euclid on integers
        let (mut r0, mut r1) = (Int::from(m.clone()), Int::from(self.rem(m)));
        let (mut t0, mut t1) = (Int::zero(), Int::from(Nat::one()));
        while !r1.mag.is_zero() {
            let (q, r) = r0.mag.divrem(&r1.mag);
            let t2 = t0.sub(&t1.mul(&Int::from(q)));
            r0 = r1;
            r1 = Int::from(r);
            t0 = t1;
            t1 = t2;
        }
        if r0.mag != Nat::one() {
            return None;
        }
        Some(t0.modulo(m))
    }
    /// Jacobi symbol (self / n) for odd n.
    pub fn jacobi(&self, n: &Self) -> i32 {
        let mut a = self.rem(n);
        let mut n = n.clone();
        let mut r = 1;
        while !a.is_zero() {
            while !a.is_odd() {
                a = a.shr(1);
                let m8 = n.0[0] & 7;
                if m8 == 3 || m8 == 5 {
                    r = -r;
                }
            }
            std::mem::swap(&mut a, &mut n);
            if a.0[0] & 3 == 3 && n.0[0] & 3 == 3 {
                r = -r;
            }
            a = a.rem(&n);
        }
        if n == Nat::one() {
            r
        } else {
            0
        }
    }
    /// Miller-Rabin with fixed bases.
    pub fn is_prime(&self) -> bool {
        let small = [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53];
        for p in small {
            let p = Nat::from(p);
            if *self == p {
                return true;
            }
            if self.rem(&p).is_zero() {
                return false;
            }
        }
        if *self < Nat::from(2) {
            return false;
        }
        let one = Nat::one();
        let m1 = self.sub(&one);
        let mut s = 0;
        while !m1.bit(s) {
            s += 1;
        }
        let d = m1.shr(s);
        'o: for p in small {
            let mut x = Nat::from(p).powmod(&d, self);
            if x == one || x == m1 {
                continue;
            }
            for _ in 1..s {
                x = x.mulmod(&x, self);
                if x == m1 {
                    continue 'o;
                }
            }
            return false;
        }
        true
    }
    pub fn random_bits(rng: &mut dyn rand_core::RngCore, bits: u32) -> Self {
        let mut v = vec![];
        for _ in 0..(bits + 63) / 64 {
            v.push(rng.next_u64());
        }
        if bits % 64 != 0 {
            if let Some(l) = v.last_mut() {
                *l &= (1u64 << (bits % 64)) - 1;
            }
        }
        Nat(v).norm()
    }
    pub fn random_below(rng: &mut dyn rand_core::RngCore, m: &Self) -> Self {
        Self::random_bits(rng, m.bits() + 64).rem(m)
    }
    pub fn fits(&self, bits: u32) -> bool {
        self.bits() <= bits
    }
}

/// Integer with sign (zero is never negative).
#[derive(Clone, PartialEq, Eq, Hash, Default)]
pub struct Int {
    pub neg: bool,
    pub mag: Nat,
}

impl std::fmt::Debug for Int {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}0x{}", if self.neg { "-" } else { "" }, self.mag.hex())
    }
}

impl Int {
    pub fn new(neg: bool, mag: Nat) -> Self {
        Int { neg: neg && !mag.is_zero(), mag }
    }
    pub fn zero() -> Self {
        Self::new(false, Nat::zero())
    }
    pub fn from(n: Nat) -> Self {
        Self::new(false, n)
    }
    pub fn small(x: i64) -> Self {
        Self::new(x < 0, Nat::from(x.unsigned_abs()))
    }
    pub fn neg(&self) -> Self {
        Self::new(!self.neg, self.mag.clone())
    }
    pub fn add(&self, o: &Self) -> Self {
        if self.neg == o.neg {
            return Self::new(self.neg, self.mag.add(&o.mag));
        }
        if self.mag >= o.mag {
            Self::new(self.neg, self.mag.sub(&o.mag))
        } else {
            Self::new(o.neg, o.mag.sub(&self.mag))
        }
    }
    pub fn sub(&self, o: &Self) -> Self {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &Self) -> Self {
        Self::new(self.neg != o.neg, self.mag.mul(&o.mag))
    }
    /// Non-negative remainder.
    pub fn modulo(&self, m: &Nat) -> Nat {
        let r = self.mag.rem(m);
        if self.neg && !r.is_zero() {
            m.sub(&r)
        } else {
            r
        }
    }
    pub fn lt(&self, o: &Self) -> bool {
        self.sub(o).neg
    }
    pub fn le(&self, o: &Self) -> bool {
        !o.lt(self)
    }
    /// In (-2^(e-1), 2^(e-1)]
    pub fn in_exp_range(&self, e: u32) -> bool {
        let h = Nat::pow2(e - 1);
        if self.neg {
            self.mag < h
        } else {
            self.mag <= h
        }
    }
    pub fn from_twos(bytes_be: &[u8]) -> Self {
        let n = Nat::from_be(bytes_be);
        let bits = 8 * bytes_be.len() as u32;
        if bits > 0 && bytes_be[0] & 0x80 != 0 {
            Self::new(true, Nat::pow2(bits).sub(&n))
        } else {
            Self::from(n)
        }
    }
    /// base^self mod m for a unit base.
    pub fn exp_of(&self, base: &Nat, m: &Nat) -> Option<Nat> {
        let b = if self.neg { base.invmod(m)? } else { base.clone() };
        Some(b.powmod(&self.mag, m))
    }
}

impl Nat {
    /// From little-endian machine words.
    pub fn from_words(w: &[u64]) -> Self {
        Nat(w.to_vec()).norm()
    }
}

pub fn nat<const L: usize>(u: &crypto_bigint::Uint<L>) -> Nat {
    Nat::from_words(u.as_words())
}
/// The low bits of `n`.
pub fn uint_of<const L: usize>(n: &Nat) -> crypto_bigint::Uint<L> {
    let mut w = [0u64; L];
    for i in 0..L.min(n.0.len()) {
        w[i] = n.0[i];
    }
    crypto_bigint::Uint::from_words(w)
}
/// Two's complement.
pub fn twos_of<const L: usize>(i: &Int) -> crypto_bigint::Uint<L> {
    let u = uint_of::<L>(&i.mag);
    if i.neg {
        u.wrapping_neg()
    } else {
        u
    }
}
pub fn int_of<const L: usize>(u: &crypto_bigint::Uint<L>) -> Int {
    let n = nat(u);
    if n.bit(64 * L as u32 - 1) {
        Int::new(true, Nat::pow2(64 * L as u32).sub(&n))
    } else {
        Int::from(n)
    }
}
