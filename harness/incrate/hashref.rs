// SHA-256, SHA-512 and HMAC-SHA512 written from the standards; the constants are computed from the primes.
use std::prelude::rust_2021::*;
use std::vec;
use std::vec::Vec;

use super::bigref::*;

/// floor(p^(1/k) * 2^64) mod 2^64
fn frac_root(p: u64, k: u32) -> u64 {
    let target = Nat::from(p).shl(64 * k);
    let (mut lo, mut hi) = (Nat::zero(), Nat::one().shl(70));
    while lo.add(&Nat::one()) < hi {
        let mid = lo.add(&hi).shr(1);
        let mut pw = mid.clone();
        for _ in 1..k {
            pw = pw.mul(&mid);
        }
        if pw <= target {
            lo = mid;
        } else {
            hi = mid;
        }
    }
    let b = lo.to_be_padded(16);
    u64::from_be_bytes(b[8..].try_into().unwrap())
}
fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut x = 2;
    while v.len() < n {
        if v.iter().all(|p| x % p != 0) {
            v.push(x);
        }
        x += 1;
    }
    v
}
pub struct Sha2 {
    h: Vec<u64>,
    k: Vec<u64>,
}
impl Sha2 {
    pub fn new() -> Self {
        Sha2 { h: primes(8).into_iter().map(|p| frac_root(p, 2)).collect(), k: primes(80).into_iter().map(|p| frac_root(p, 3)).collect() }
    }
    pub fn sha512(&self, m: &[u8]) -> Vec<u8> {
        let mut d = m.to_vec();
        d.push(0x80);
        while d.len() % 128 != 112 {
            d.push(0);
        }
        d.extend(((m.len() as u128) * 8).to_be_bytes());
        let mut h = self.h.clone();
        for block in d.chunks(128) {
            let mut w: Vec<u64> = block.chunks(8).map(|c| u64::from_be_bytes(c.try_into().unwrap())).collect();
            for i in 16..80 {
                let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
                let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
                w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
            }
            let mut v = h.clone();
            for i in 0..80 {
                let s1 = v[4].rotate_right(14) ^ v[4].rotate_right(18) ^ v[4].rotate_right(41);
                let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(self.k[i]).wrapping_add(w[i]);
                let s0 = v[0].rotate_right(28) ^ v[0].rotate_right(34) ^ v[0].rotate_right(39);
                let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
                let t2 = s0.wrapping_add(maj);
                v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
            }
            for i in 0..8 {
                h[i] = h[i].wrapping_add(v[i]);
            }
        }
        h.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
    pub fn sha256(&self, m: &[u8]) -> Vec<u8> {
        let mut d = m.to_vec();
        d.push(0x80);
        while d.len() % 64 != 56 {
            d.push(0);
        }
        d.extend(((m.len() as u64) * 8).to_be_bytes());
        let mut h: Vec<u32> = self.h.iter().map(|x| (x >> 32) as u32).collect();
        for block in d.chunks(64) {
            let mut w: Vec<u32> = block.chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
            for i in 16..64 {
                let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
                let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
                w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
            }
            let mut v = h.clone();
            for i in 0..64 {
                let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
                let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
                let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add((self.k[i] >> 32) as u32).wrapping_add(w[i]);
                let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
                let maj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
                let t2 = s0.wrapping_add(maj);
                v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
            }
            for i in 0..8 {
                h[i] = h[i].wrapping_add(v[i]);
            }
        }
        h.iter().flat_map(|x| x.to_be_bytes()).collect()
    }
    pub fn hmac512(&self, key: &[u8], m: &[u8]) -> Vec<u8> {
        let mut k = if key.len() > 128 { self.sha512(key) } else { key.to_vec() };
        k.resize(128, 0);
        let mut inner: Vec<u8> = k.iter().map(|x| x ^ 0x36).collect();
        inner.extend(m);
        let mut outer: Vec<u8> = k.iter().map(|x| x ^ 0x5c).collect();
        outer.extend(self.sha512(&inner));
        self.sha512(&outer)
    }
}
