// What a dishonest prover can do without knowing how the challenge hash is laid out: shift responses so that chosen
// equations stay satisfied, and simulate transcripts for a challenge of its own choice.
use std::format;
use std::prelude::rust_2021::*;
use std::string::String;
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::util::*;
use super::zkfix::*;
use crate::curve::Point;
use crate::params::SchemeParams;
use crate::tools::hashing::{Chain, Hasher};
use crate::uint::PublicUint;

/// (1+N)^m r^N mod N^2
pub fn enc_num(n: &Nat, m: &Int, r: &Nat) -> Nat {
    let n2 = n.mul(n);
    Nat::one().add(&m.modulo(n).mul(n)).rem(&n2).mul(&r.powmod(n, &n2)).rem(&n2)
}
pub fn unit_below(rng: &mut Rng, n: &Nat) -> Nat {
    loop {
        let r = Nat::random_below(rng, n);
        if !r.is_zero() && r.gcd(n) == Nat::one() {
            return r;
        }
    }
}
/// base^e mod m, e signed; base a unit
pub fn pw(base: &Nat, e: &Int, m: &Nat) -> Nat {
    e.exp_of(base, m).expect("unit")
}
pub fn pt_mul<S: SchemeParams>(c: &CurveRef, p: &Point<S>, k: &Int) -> Point<S> {
    *p * mk_sc::<S>(c, &k.modulo(&c.n))
}
/// Adds to a signed number of a proof.
pub fn add_signed(j: &mut J, d: &Int) {
    let v = signed_of(j).add(d);
    let b = j["bound"].as_u64().unwrap() as u32;
    *j = signed_json(&v, b);
}
pub fn set_num<S: SchemeParams>(j: &mut J, v: &Nat) {
    *j = uint_json::<S>(v);
}
pub fn rand_signed(rng: &mut Rng, bits: u32) -> Int {
    Int::new(rng.next_u32() & 1 == 1, Nat::random_bits(rng, bits))
}
/// Commitment s^a t^b mod N^
pub fn com(s: &Setup, a: &Int, b: &Int) -> Nat {
    pw(&s.s, a, &s.n).mul(&pw(&s.t, b, &s.n)).rem(&s.n)
}

/// Transcripts that satisfy every verification equation for a challenge chosen by the prover (the zero-knowledge
/// simulator); needs no witness. The real challenge is a hash, so no such proof may be accepted.
pub fn simulate<S: SchemeParams>(case: &Case<S>, pubs: &Pubs, rng: &mut Rng) -> J {
    let w = case.w;
    let c = &w.curve;
    let g = |v: &Int| case.g(v);
    let e = Nat::from(1 + (rng.next_u32() as u64 >> 2));
    let ei = Int::from(e.clone());
    let me = ei.neg();
    let scal = |rng: &mut Rng| Nat::random_below(rng, &c.n);
    let p = |k: &str| pt::<S>(&pubs[k]);
    let inv_pt = |x: &Point<S>, k: &Int| pt_mul::<S>(c, x, &k.neg());
    let (n0, n1) = (&w.k0.n, &w.k1.n);
    let (n02, n12) = (n0.mul(n0), n1.mul(n1));
    let st = &w.setup;
    let zb = S::L_BOUND + S::EPS_BOUND - 1;
    let zpb = S::LP_BOUND + S::EPS_BOUND - 1;
    let rand_bits = |rng: &mut Rng, n: u32| -> (Vec<bool>, J) {
        let bits: Vec<bool> = (0..n).map(|_| rng.next_u32() & 1 == 1).collect();
        let bv: crate::tools::bitvec::BitVec = {
            let mut bytes = vec![0u8; (n as usize).div_ceil(8)];
            for (i, b) in bits.iter().enumerate() {
                bytes[i / 8] |= (*b as u8) << (i % 8);
            }
            let mut x = super::util::FakeXof::new(bytes, 7);
            crate::tools::bitvec::BitVec::from_xof_reader(&mut x, n as usize)
        };
        let got = bv.bits().to_vec();
        (got, to_json(&bv))
    };
    match case.kind {
        Kind::Sch => {
            // commitment is part of the statement here: z G - e X
            let z = scal(rng);
            let _ = z;
            unreachable!("simulate_sch")
        }
        Kind::Elog => {
            let (z, u) = (scal(rng), scal(rng));
            let (zi, ui) = (Int::from(z.clone()), Int::from(u.clone()));
            serde_json::json!({
                "e": sc_json::<S>(c, &e),
                "cap_a": to_json(&(g(&zi) + inv_pt(&p("l"), &ei))),
                "cap_n": to_json(&(g(&ui) + pt_mul::<S>(c, &p("x"), &zi) + inv_pt(&p("m"), &ei))),
                "cap_b": to_json(&(pt_mul::<S>(c, &p("h"), &ui) + inv_pt(&p("y"), &ei))),
                "z": sc_json::<S>(c, &z), "u": sc_json::<S>(c, &u),
            })
        }
        Kind::Enc => {
            let (z1, z3) = (rand_signed(rng, zb), rand_signed(rng, zb + st.n.bits()));
            let wv = scal(rng);
            let z2 = unit_below(rng, n0);
            let cs = com(st, &rand_signed(rng, 40), &rand_signed(rng, 40));
            let cc = ct_num(&pubs["c"]);
            let cd = enc_num(n0, &z1, &z2).mul(&pw(&cc, &me, &n02)).rem(&n02);
            let ct = com(st, &z1, &z3).mul(&pw(&cs, &me, &st.n)).rem(&st.n);
            serde_json::json!({
                "e": sc_json::<S>(c, &e),
                "cap_s": uint_json::<S>(&cs),
                "cap_d": ct_json::<S>(&cd),
                "cap_y": to_json(&(pt_mul::<S>(c, &p("a"), &Int::from(wv.clone())) + g(&z1) + inv_pt(&p("x"), &ei))),
                "cap_z": to_json(&(case.gn(&wv) + inv_pt(&p("b"), &ei))),
                "cap_t": uint_json::<S>(&ct),
                "z1": signed_json(&z1, 1), "w": sc_json::<S>(c, &wv), "z2": uint_json::<S>(&z2), "z3": signed_json(&z3, 1),
            })
        }
        Kind::AffG => {
            let (z1, z2) = (rand_signed(rng, zb), rand_signed(rng, zpb));
            let (z3, z4) = (rand_signed(rng, zb + st.n.bits()), rand_signed(rng, zb + st.n.bits()));
            let (wr, wy) = (unit_below(rng, n0), unit_below(rng, n1));
            let cs = com(st, &rand_signed(rng, 40), &rand_signed(rng, 40));
            let ct = com(st, &rand_signed(rng, 40), &rand_signed(rng, 40));
            let a = pw(&ct_num(&pubs["c"]), &z1, &n02)
                .mul(&enc_num(n0, &z2, &wr)).rem(&n02)
                .mul(&pw(&ct_num(&pubs["d"]), &me, &n02)).rem(&n02);
            let by = enc_num(n1, &z2, &wy).mul(&pw(&ct_num(&pubs["y"]), &ei, &n12)).rem(&n12);
            let ce = com(st, &z1, &z3).mul(&pw(&cs, &me, &st.n)).rem(&st.n);
            let cf = com(st, &z2, &z4).mul(&pw(&ct, &me, &st.n)).rem(&st.n);
            serde_json::json!({
                "e": sc_json::<S>(c, &e),
                "cap_a": ct_json::<S>(&a),
                "cap_b_x": to_json(&(g(&z1) + inv_pt(&p("x"), &ei))),
                "cap_b_y": ct_json::<S>(&by),
                "cap_e": uint_json::<S>(&ce), "cap_s": uint_json::<S>(&cs),
                "cap_f": uint_json::<S>(&cf), "cap_t": uint_json::<S>(&ct),
                "z1": signed_json(&z1, 1), "z2": signed_json(&z2, 1), "z3": signed_json(&z3, 1), "z4": signed_json(&z4, 1),
                "w": uint_json::<S>(&wr), "w_y": uint_json::<S>(&wy),
            })
        }
        Kind::Dec => {
            let (bits, e) = rand_bits(rng, S::SECURITY_PARAMETER as u32);
            let mut coms = vec![];
            let mut els = vec![];
            for b in bits {
                let eb = Int::small(b as i64);
                let (z, wv) = (rand_signed(rng, zb), rand_signed(rng, zpb));
                let nu = unit_below(rng, n0);
                let a = enc_num(n0, &wv, &nu)
                    .mul(&pw(&ct_num(&pubs["k"]), &z.neg(), &n02)).rem(&n02)
                    .mul(&pw(&ct_num(&pubs["d"]), &eb.neg(), &n02)).rem(&n02);
                coms.push(serde_json::json!({
                    "cap_a": ct_json::<S>(&a),
                    "cap_b": to_json(&(pt_mul::<S>(c, &p("g"), &wv) + inv_pt(&p("s"), &eb))),
                    "cap_c": to_json(&(g(&z) + inv_pt(&p("x"), &eb))),
                }));
                els.push(serde_json::json!({"z": signed_json(&z, 1), "w": signed_json(&wv, 1), "nu": uint_json::<S>(&nu)}));
            }
            serde_json::json!({"e": e, "commitments": coms, "elements": els})
        }
        Kind::AffStar => {
            let (bits, e) = rand_bits(rng, S::SECURITY_PARAMETER as u32);
            let mut coms = vec![];
            let mut els = vec![];
            for b in bits {
                let eb = Int::small(b as i64);
                let (z, zp) = (rand_signed(rng, zb), rand_signed(rng, zpb));
                let (wr, la) = (unit_below(rng, n0), unit_below(rng, n1));
                let a = pw(&ct_num(&pubs["c"]), &z, &n02)
                    .mul(&enc_num(n0, &zp, &wr)).rem(&n02)
                    .mul(&pw(&ct_num(&pubs["d"]), &eb.neg(), &n02)).rem(&n02);
                let bb = enc_num(n1, &zp, &la).mul(&pw(&ct_num(&pubs["y"]), &eb, &n12)).rem(&n12);
                coms.push(serde_json::json!({
                    "cap_a": ct_json::<S>(&a),
                    "cap_r": to_json(&(g(&z) + inv_pt(&p("x"), &eb))),
                    "cap_b": ct_json::<S>(&bb),
                }));
                els.push(serde_json::json!({
                    "z": signed_json(&z, 1), "z_prime": signed_json(&zp, 1), "w": uint_json::<S>(&wr), "lambda": uint_json::<S>(&la),
                }));
            }
            serde_json::json!({"e": e, "commitments": coms, "elements": els})
        }
        Kind::Fac => {
            let b = S::L_BOUND + S::EPS_BOUND + 20;
            let (z1, z2) = (rand_signed(rng, b), rand_signed(rng, b));
            let (w1, w2, v) = (rand_signed(rng, b), rand_signed(rng, b), rand_signed(rng, b));
            let cp = com(st, &rand_signed(rng, 40), &rand_signed(rng, 40));
            let cq = com(st, &rand_signed(rng, 40), &rand_signed(rng, 40));
            let e = Int::from(Nat::random_bits(rng, S::L_BOUND - 2).add(&Nat::one()));
            let me = e.neg();
            let a = com(st, &z1, &w1).mul(&pw(&cp, &me, &st.n)).rem(&st.n);
            let bb = com(st, &z2, &w2).mul(&pw(&cq, &me, &st.n)).rem(&st.n);
            let t = pw(&cq, &z1, &st.n)
                .mul(&com(st, &Int::from(n0.clone()).mul(&me), &v)).rem(&st.n);
            serde_json::json!({
                "e": signed_json(&e, S::L_BOUND),
                "cap_p": uint_json::<S>(&cp), "cap_q": uint_json::<S>(&cq),
                "cap_a": uint_json::<S>(&a), "cap_b": uint_json::<S>(&bb), "cap_t": uint_json::<S>(&t),
                "z1": signed_json(&z1, 1), "z2": signed_json(&z2, 1),
                "w1": signed_json(&w1, 1), "w2": signed_json(&w2, 1), "v": signed_json(&v, 1),
            })
        }
        Kind::Prm => {
            let j = &pubs["setup"];
            let (n, t, s) = (num(&j["modulus"]), num(&j["base_randomizer"]), num(&j["base_value"]));
            let (bits, e) = rand_bits(rng, S::SECURITY_BITS as u32);
            let mut coms = vec![];
            let mut els = vec![];
            for b in bits {
                let z = Nat::random_below(rng, &n);
                let a = t.powmod(&z, &n).mul(&pw(&s, &Int::small(-(b as i64)), &n)).rem(&n);
                coms.push(uint_json::<S>(&a));
                els.push(uint_json::<S>(&z));
            }
            serde_json::json!({"commitment": coms, "challenge": e, "proof": els})
        }
        Kind::Mod => {
            // y = x^4 = z^N for x = r^N, z = r^4; w of Jacobi symbol -1 is unused (a = b = 0)
            let n = n0;
            let wv = loop {
                let x = unit_below(rng, n);
                if x.jacobi(n) == -1 {
                    break x;
                }
            };
            let mut ys = vec![];
            let mut els = vec![];
            for _ in 0..S::SECURITY_PARAMETER {
                let r = unit_below(rng, n);
                let x = r.powmod(n, n);
                let z = r.powmod(&Nat::from(4), n);
                ys.push(uint_json::<S>(&x.powmod(&Nat::from(4), n)));
                els.push(serde_json::json!({"x": uint_json::<S>(&x), "a": false, "b": false, "z": uint_json::<S>(&z)}));
            }
            serde_json::json!({"commitment": uint_json::<S>(&wv), "challenge": ys, "proof": els})
        }
    }
}

/// A Schnorr transcript for a challenge of the prover's choice: (commitment, proof).
pub fn simulate_sch<S: SchemeParams>(case: &Case<S>, pubs: &Pubs, rng: &mut Rng) -> (J, J) {
    let c = &case.w.curve;
    let (z, e) = (Nat::random_below(rng, &c.n), Nat::random_below(rng, &c.n));
    let com = case.gn(&z) + pt_mul::<S>(c, &pt::<S>(&pubs["cap_x"]), &Int::from(e.clone()).neg());
    (to_json(&com), serde_json::json!({"challenge": sc_json::<S>(c, &e), "proof": sc_json::<S>(c, &z)}))
}

/// All the leaves of a JSON value: paths as JSON pointers.
pub fn leaves(j: &J) -> Vec<String> {
    fn go(j: &J, path: String, out: &mut Vec<String>) {
        match j {
            J::Array(a) => {
                for (i, x) in a.iter().enumerate() {
                    go(x, format!("{}/{}", path, i), out);
                }
            }
            J::Object(o) => {
                for (k, x) in o {
                    go(x, format!("{}/{}", path, k), out);
                }
            }
            _ => out.push(path),
        }
    }
    let mut out = vec![];
    go(j, String::new(), &mut out);
    out
}

/// The residues a mod proof is challenged with (None: the hash is laid out differently from what we know).
pub fn mod_challenge<S: SchemeParams>(n: &Nat, w: &Nat, aux: &Aux) -> Vec<Nat> {
    let pk = pk_of::<S>(&pk_json::<S>(n)).unwrap();
    let com: PublicUint<Ui<S>> = from_json(&uint_json::<S>(w)).unwrap();
    let mut r = Hasher::<S::Digest>::new_with_dst(b"P_mod").chain(pk.as_wire()).chain(&com).chain(aux).finalize_to_reader();
    (0..S::SECURITY_BITS).map(|_| bn(&pk.invertible_residue_from_xof_reader(&mut r))).collect()
}

pub fn crt(parts: &[(Nat, Nat)]) -> Nat {
    let m = parts.iter().fold(Nat::one(), |a, (_, p)| a.mul(p));
    let mut x = Nat::zero();
    for (r, p) in parts {
        let o = m.divrem(p).0;
        let inv = o.rem(p).invmod(p).unwrap();
        x = x.add(&o.mul(&inv).rem(&m).mul(r)).rem(&m);
    }
    x
}
/// Square root modulo a prime (Tonelli-Shanks).
pub fn sqrt_p(a: &Nat, p: &Nat) -> Option<Nat> {
    let one = Nat::one();
    if a.is_zero() {
        return Some(Nat::zero());
    }
    if a.powmod(&p.sub(&one).shr(1), p) != one {
        return None;
    }
    let mut q = p.sub(&one);
    let mut s = 0;
    while !q.is_odd() {
        q = q.shr(1);
        s += 1;
    }
    let mut z = Nat::from(2);
    while z.powmod(&p.sub(&one).shr(1), p) == one {
        z = z.add(&one);
    }
    let (mut m, mut cc, mut t, mut r) = (s, z.powmod(&q, p), a.powmod(&q, p), a.powmod(&q.add(&one).shr(1), p));
    while t != one {
        let mut i = 0;
        let mut u = t.clone();
        while u != one {
            u = u.mulmod(&u, p);
            i += 1;
        }
        let b = cc.powmod(&Nat::pow2(m - i - 1), p);
        m = i;
        cc = b.mulmod(&b, p);
        t = t.mulmod(&cc, p);
        r = r.mulmod(&b, p);
    }
    Some(r)
}
pub fn root4_p(a: &Nat, p: &Nat) -> Option<Nat> {
    let r = sqrt_p(a, p)?;
    sqrt_p(&r, p).or_else(|| sqrt_p(&p.sub(&r), p))
}

/// A mod "proof" for a product of primes, as good as anyone knowing the factors can make it.
/// Returns the proof and the number of repetitions where (x, z) could be satisfied.
pub fn forge_mod<S: SchemeParams>(primes: &[Nat], square: bool, wv: &Nat, aux: &Aux) -> (Nat, J, u32, u32) {
    // square: the first prime is squared
    let one = Nat::one();
    let mut n = primes.iter().fold(Nat::one(), |a, p| a.mul(p));
    let mut phi = primes.iter().fold(Nat::one(), |a, p| a.mul(&p.sub(&one)));
    if square {
        n = n.mul(&primes[0]);
        phi = phi.mul(&primes[0]);
    }
    let ys = mod_challenge::<S>(&n, wv, aux);
    let (mut okx, mut okz) = (0, 0);
    let mut els = vec![];
    for y in &ys {
        let mut el = None;
        'ab: for (a, b) in [(false, false), (false, true), (true, false), (true, true)] {
            let mut v = y.clone();
            if a {
                v = n.sub(&v);
            }
            if b {
                v = v.mulmod(wv, &n);
            }
            let mut parts = vec![];
            for (i, p) in primes.iter().enumerate() {
                let Some(mut r) = root4_p(&v.rem(p), p) else { continue 'ab };
                let mut m = p.clone();
                if square && i == 0 {
                    // Hensel: r' = r - (r^4 - v) / (4 r^3) mod p^2
                    m = p.mul(p);
                    if r.is_zero() {
                        continue 'ab;
                    }
                    let f = r.powmod(&Nat::from(4), &m).add(&m).sub(&v.rem(&m)).rem(&m);
                    let d = Nat::from(4).mul(&r.powmod(&Nat::from(3), &m)).rem(&m).invmod(&m).unwrap();
                    r = r.add(&m).sub(&f.mul(&d).rem(&m)).rem(&m);
                }
                parts.push((r, m));
            }
            el = Some((crt(&parts), a, b));
            break;
        }
        let z = n.gcd(&phi);
        let z = if z == one {
            okz += 1;
            y.powmod(&n.invmod(&phi).unwrap(), &n)
        } else {
            y.clone()
        };
        let (x, a, b) = match el {
            Some(e) => {
                okx += 1;
                e
            }
            None => (Nat::one(), false, false),
        };
        els.push(serde_json::json!({"x": uint_json::<S>(&x), "a": a, "b": b, "z": uint_json::<S>(&z)}));
    }
    let p = serde_json::json!({
        "commitment": uint_json::<S>(wv),
        "challenge": ys.iter().map(|y| uint_json::<S>(y)).collect::<Vec<_>>(),
        "proof": els,
    });
    (n, p, okx, okz)
}

pub fn prime_mod4(rng: &mut Rng, bits: u32, r: u64) -> Nat {
    loop {
        let p = rand_prime(rng, bits);
        if p.rem(&Nat::from(4)) == Nat::from(r) {
            return p;
        }
    }
}


/// Discrete logarithm to the base `g` (a primitive root) modulo the prime p, p - 1 = product of `factors` (small, distinct).
pub fn dlog_smooth(g: &Nat, x: &Nat, p: &Nat, factors: &[u64]) -> Nat {
    let m = p.sub(&Nat::one());
    let mut parts = vec![];
    for f in factors {
        let fn_ = Nat::from(*f);
        let co = m.divrem(&fn_).0;
        let (gg, xx) = (g.powmod(&co, p), x.powmod(&co, p));
        let mut acc = Nat::one();
        let mut k = 0u64;
        while acc != xx {
            acc = acc.mulmod(&gg, p);
            k += 1;
            assert!(k < *f, "not a primitive root");
        }
        parts.push((Nat::from(k), fn_));
    }
    crt(&parts)
}
/// A prime p of `bits` bits with p - 1 a product of distinct small primes, for which `t` is a primitive root.
pub fn smooth_prime(rng: &mut Rng, bits: u32, t: &Nat) -> (Nat, Vec<u64>) {
    let small: Vec<u64> = (3u64..1200).filter(|x| Nat::from(*x).is_prime()).collect();
    loop {
        let mut fs = vec![2u64];
        let mut m = Nat::from(2);
        while m.bits() < bits - 10 {
            let f = small[rng.next_u32() as usize % small.len()];
            if !fs.contains(&f) {
                m = m.mul(&Nat::from(f));
                fs.push(f);
            }
        }
        for f in &small {
            if fs.contains(f) {
                continue;
            }
            let m2 = m.mul(&Nat::from(*f));
            let p = m2.add(&Nat::one());
            if m2.bits() == bits && p.is_prime() {
                let mut fs = fs.clone();
                fs.push(*f);
                if fs.iter().all(|f| t.powmod(&m2.divrem(&Nat::from(*f)).0, &p) != Nat::one()) {
                    return (p, fs);
                }
            }
        }
    }
}
