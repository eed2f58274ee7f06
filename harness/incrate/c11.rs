// C11: false statements and tampered proofs never verify.
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::util::*;
use super::zkfix::*;
use super::zkforge::*;
use super::zkweak::*;
use crate::curve::Point;
use crate::dev::TestParams;
use crate::params::SchemeParams;

const ALL: u32 = 63; // both scalars of the witness random

/// `f` makes an attempt from scratch; a verdict Accept must repeat to count (test parameters leave 2^-16).
fn must_fail(c: &Ctx, what: &str, detail: &dyn Fn() -> String, f: &mut dyn FnMut() -> Verdict) {
    c.count(what);
    let v = f();
    match v {
        Verdict::Accept => {
            if f() == Verdict::Accept {
                c.violation(what, "a proof of a false statement or a tampered proof verifies", detail());
            } else {
                c.count("accepted once by chance");
            }
        }
        Verdict::Reject => c.count("rejected"),
        Verdict::NoDecode(_) => c.count("rejected when decoding"),
        Verdict::Panic(_) => c.count("not accepted (panic, see C14)"),
    }
}

/// The alterations of a public input that make the statement false for the witness.
fn false_inputs<S: SchemeParams>(case: &Case<S>, key: &str, rng: &mut Rng) -> Vec<(&'static str, J)> {
    let w = case.w;
    let c = &w.curve;
    let v = &case.pubs[key];
    let mut out = vec![];
    let ct = |n: &Nat, out: &mut Vec<(&'static str, J)>, rng: &mut Rng| {
        let n2 = n.mul(n);
        let x = ct_num(v);
        let r = unit_below(rng, n);
        out.push(("plaintext plus one", ct_json::<S>(&x.mul(&Nat::one().add(n)).rem(&n2))));
        out.push(("other randomizer", ct_json::<S>(&x.mul(&r.powmod(n, &n2)).rem(&n2))));
        out.push(("negated plaintext", ct_json::<S>(&x.invmod(&n2).unwrap())));
        out.push(("negated value", ct_json::<S>(&n2.sub(&x))));
        out.push(("unrelated ciphertext", ct_json::<S>(&enc_num(n, &Int::from(Nat::random_below(rng, n)), &r))));
        out.push(("trivial encryption of zero", ct_json::<S>(&Nat::one())));
    };
    match (case.kind, key) {
        (Kind::Prm, "setup") => {
            let (n, t, s) = (num(&v["modulus"]), num(&v["base_randomizer"]), num(&v["base_value"]));
            let u = unit_below(rng, &n);
            out.push(("s negated", rp_json::<S>(&n, &t, &n.sub(&s))));
            out.push(("s unrelated", rp_json::<S>(&n, &t, &u)));
            out.push(("s times t", rp_json::<S>(&n, &t, &s.mulmod(&t, &n))));
            out.push(("s = 1", rp_json::<S>(&n, &t, &Nat::one())));
            out.push(("t and s exchanged", rp_json::<S>(&n, &s, &t)));
            out.push(("s inverted", rp_json::<S>(&n, &t, &s.invmod(&n).unwrap())));
        }
        (_, "setup") | (_, "parties") => {}
        (Kind::Mod, _) | (Kind::Fac, _) => {} // the provers take the statement from the secret key: see `bad_moduli`
        (_, "pk0") => out.push(("other key", w.k1.wire())),
        (_, "pk1") => out.push(("other key", w.k0.wire())),
        (_, "c") | (_, "k") => ct(&w.k0.n, &mut out, rng),
        (_, "d") => ct(&w.k0.n, &mut out, rng),
        (Kind::AffG, "y") | (Kind::AffStar, "y") => ct(&w.k1.n, &mut out, rng),
        _ => {
            let p = pt::<S>(v);
            let g = Point::<S>::generator();
            let r = Nat::random_below(rng, &c.n);
            out.push(("plus the generator", to_json(&(p + g))));
            out.push(("negated", to_json(&pt_mul::<S>(c, &p, &Int::small(-1)))));
            out.push(("doubled", to_json(&(p + p))));
            out.push(("identity", to_json(&Point::<S>::identity())));
            out.push(("generator", to_json(&g)));
            out.push(("unrelated", to_json(&case.gn(&r))));
            for (k, o) in &case.pubs {
                if o.is_string() && *k != key {
                    out.push(("another input of the statement", o.clone()));
                }
            }
        }
    }
    out.retain(|(_, x)| x != v);
    out
}

fn false_statements<S: SchemeParams>(c: &Ctx, w: &World<S>, kind: Kind, idx: u64) {
    let rng = &mut rng_for(&format!("c11/false/{}", kind.name()), idx);
    let (xk, yk) = (rng.next_u32() % 3 + 6, rng.next_u32() % 3 + 6);
    let case = Case::<S>::new(w, kind, rng, xk, yk, ALL, 3);
    let aux = Aux::random(rng);
    // control
    let p = case.prove(rng, &aux).unwrap_or(J::Null);
    if verify::<S>(kind, &case.pubs, &p, &aux) == Verdict::Accept {
        c.count("control: true statement accepted");
    } else {
        c.count("control: true statement NOT accepted (see C10)");
    }
    let keys: Vec<&'static str> = case.pubs.keys().copied().collect();
    for key in keys {
        for (how, val) in false_inputs(&case, key, rng) {
            let mut pubs = case.pubs.clone();
            pubs.insert(key, val);
            let what = format!("{}: false {}", kind.name(), key);
            c.distinct(format!("{}/{}/{}", what, how, idx).as_bytes());
            c.sample(&what, how);
            // (-C encrypts the same plaintext, under the randomizer -rho: the statement is still true)
            if how != "negated value" {
            must_fail(
                c,
                &what,
                &|| format!("{} made {} | aux={:?} | {}", key, how, aux, case.describe()),
                &mut || match case.prove_as(rng, &pubs, &aux) {
                    Ok(p) => verify::<S>(kind, &pubs, &p, &aux),
                    Err(_) => Verdict::Reject, // the prover refused
                },
            );
            }
            // ... and the honest proof with the altered statement
            must_fail(
                c,
                &format!("{}: altered {} after proving", kind.name(), key),
                &|| format!("{} made {} | aux={:?} | {}", key, how, aux, case.describe()),
                &mut || verify::<S>(kind, &pubs, &p, &aux),
            );
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
enum Leaf {
    Signed,
    Ct,
    Uint,
    Scalar,
    Point,
    Bits,
    Bool,
}
fn typed_leaves(kind: Kind, j: &J, path: String, out: &mut Vec<(String, Leaf)>) {
    match j {
        J::Object(o) if o.contains_key("abs_bytes") => out.push((path, Leaf::Signed)),
        J::Object(o) if o.contains_key("ciphertext") => out.push((path, Leaf::Ct)),
        J::Object(o) if o.contains_key("byte_vec") => out.push((path, Leaf::Bits)),
        J::Object(o) => {
            for (k, x) in o {
                typed_leaves(kind, x, format!("{}/{}", path, k), out);
            }
        }
        J::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                typed_leaves(kind, x, format!("{}/{}", path, i), out);
            }
        }
        J::Bool(_) => out.push((path, Leaf::Bool)),
        J::String(_) => {
            let last = path.rsplit('/').next().unwrap_or("").to_string();
            let t = match (kind, last.as_str()) {
                (Kind::Sch, _) => Leaf::Scalar,
                (Kind::Elog, "e") | (Kind::Elog, "z") | (Kind::Elog, "u") => Leaf::Scalar,
                (Kind::Elog, _) => Leaf::Point,
                (Kind::Enc, "e") | (Kind::Enc, "w") | (Kind::AffG, "e") => Leaf::Scalar,
                (Kind::Enc, "cap_y") | (Kind::Enc, "cap_z") | (Kind::AffG, "cap_b_x") => Leaf::Point,
                (Kind::Dec, "cap_b") | (Kind::Dec, "cap_c") | (Kind::AffStar, "cap_r") => Leaf::Point,
                _ => Leaf::Uint,
            };
            out.push((path, t));
        }
        _ => {}
    }
}

/// Different values for a leaf.
fn alter<S: SchemeParams>(w: &World<S>, kind: Kind, path: &str, t: Leaf, v: &J, rng: &mut Rng, other: Option<&J>) -> Vec<(&'static str, J)> {
    let c = &w.curve;
    let mut out: Vec<(&'static str, J)> = vec![];
    match t {
        Leaf::Bool => out.push(("flipped", J::Bool(!v.as_bool().unwrap()))),
        Leaf::Signed => {
            let x = signed_of(v);
            let b = v["bound"].as_u64().unwrap() as u32;
            let mut put = |how, y: Int| {
                if y != x {
                    out.push((how, signed_json(&y, b)));
                }
            };
            put("+1", x.add(&Int::small(1)));
            put("-1", x.add(&Int::small(-1)));
            put("negated", x.neg());
            put("zero", Int::zero());
            let k = rng.next_u32() % x.mag.bits().max(1);
            put("one bit", x.add(&Int::from(Nat::pow2(k))));
            put("random", rand_signed(rng, x.mag.bits().max(1)));
        }
        Leaf::Ct => {
            let x = ct_num(v);
            // which key the value belongs to
            let n = if path.ends_with("cap_b_y") || (kind == Kind::AffStar && path.ends_with("cap_b")) { &w.k1.n } else { &w.k0.n };
            let n2 = n.mul(n);
            out.push(("+1", ct_json::<S>(&x.add(&Nat::one()).rem(&n2))));
            out.push(("plaintext+1", ct_json::<S>(&x.mul(&Nat::one().add(n)).rem(&n2))));
            out.push(("negated", ct_json::<S>(&n2.sub(&x))));
            out.push(("one", ct_json::<S>(&Nat::one())));
            out.push(("random", ct_json::<S>(&unit_below(rng, &n2))));
        }
        Leaf::Uint => {
            let x = num(v);
            let n = match kind {
                Kind::Prm => num(&w.rp.as_ref().unwrap().1["modulus"]),
                Kind::Mod => w.k0.n.clone(),
                _ if path.contains("cap_") => w.setup.n.clone(),
                _ if path.ends_with("w_y") || path.ends_with("lambda") => w.k1.n.clone(),
                _ => w.k0.n.clone(),
            };
            let mut put = |how, y: Nat| {
                let same_x = kind == Kind::Mod && path.ends_with("/x") && y.add(&x) == n;
                if y != x && !same_x {
                    out.push((how, uint_json::<S>(&y)));
                }
            };
            put("+1", x.add(&Nat::one()).rem(&n));
            put("-1", x.add(&n).sub(&Nat::one()).rem(&n));
            put("one", Nat::one());
            if !x.is_zero() {
                put("negated", n.sub(&x.rem(&n)));
            }
            put("doubled", x.add(&x).rem(&n));
            put("random", unit_below(rng, &n));
        }
        Leaf::Scalar => {
            let x: crate::curve::Scalar<S> = from_json(v).unwrap();
            let x = sc(&x);
            let mut put = |how, y: Nat| {
                let y = y.rem(&c.n);
                if y != x {
                    out.push((how, sc_json::<S>(c, &y)));
                }
            };
            put("+1", x.add(&Nat::one()));
            put("-1", x.add(&c.n).sub(&Nat::one()));
            put("negated", c.n.sub(&x));
            put("zero", Nat::zero());
            put("random", Nat::random_below(rng, &c.n));
        }
        Leaf::Point => {
            let x = pt::<S>(v);
            out.push(("+G", to_json(&(x + Point::<S>::generator()))));
            out.push(("negated", to_json(&pt_mul::<S>(c, &x, &Int::small(-1)))));
            out.push(("identity", to_json(&Point::<S>::identity())));
            out.push(("generator", to_json(&Point::<S>::generator())));
        }
        Leaf::Bits => {
            let b = bits_of(v);
            let n = b.len();
            let enc = |bits: &[bool]| {
                let mut bytes = vec![0u8; bits.len().div_ceil(8)];
                for (i, x) in bits.iter().enumerate() {
                    if *x {
                        bytes[i / 8] |= 1 << (7 - i % 8);
                    }
                }
                let mut x = super::util::FakeXof::new(bytes, 1);
                let r = crate::tools::bitvec::BitVec::from_xof_reader(&mut x, bits.len());
                to_json(&r)
            };
            for i in [0, n / 2, n - 1] {
                let mut b2 = b.clone();
                b2[i] = !b2[i];
                out.push(("one bit", enc(&b2)));
            }
            out.push(("all inverted", enc(&b.iter().map(|x| !x).collect::<Vec<_>>())));
            out.push(("one bit shorter", enc(&b[..n - 1])));
            let mut b2 = b.clone();
            b2.push(false);
            out.push(("one bit longer", enc(&b2)));
            out.push(("empty", enc(&[])));
            out.push(("all zero", enc(&vec![false; n])));
        }
    }
    if let Some(o) = other {
        out.push(("the value of another proof", o.clone()));
    }
    out.retain(|(_, x)| x != v);
    out
}

fn tampering<S: SchemeParams>(c: &Ctx, w: &World<S>, kind: Kind, idx: u64, per_leaf: usize) {
    let rng = &mut rng_for(&format!("c11/tamper/{}", kind.name()), idx);
    let (xk, yk) = (rng.next_u32() % 9, rng.next_u32() % 9);
    let case = Case::<S>::new(w, kind, rng, xk, yk, ALL, 5);
    let aux = Aux::random(rng);
    let (Ok(p), Ok(p2)) = (case.prove(rng, &aux), case.prove(rng, &aux)) else { return };
    if verify::<S>(kind, &case.pubs, &p, &aux) != Verdict::Accept {
        c.count("control: true statement NOT accepted (see C10)");
        return;
    }
    let mut ls = vec![];
    typed_leaves(kind, &p, String::new(), &mut ls);
    for (path, t) in &ls {
        let v = p.pointer(path).unwrap();
        let mut alts = alter(w, kind, path, *t, v, rng, p2.pointer(path));
        let mut generic = String::new();
        for part in path.split('/').filter(|x| !x.is_empty() && x.parse::<u32>().is_err()) {
            generic = format!("{}/{}", generic, part);
        }
        while alts.len() > per_leaf {
            let k = rng.next_u32() as usize % alts.len();
            alts.swap_remove(k);
        }
        for (how, val) in alts {
            let mut q = p.clone();
            *q.pointer_mut(path).unwrap() = val;
            let what = format!("{}: tampered {}", kind.name(), generic);
            c.distinct(format!("{}{}{}{}", kind.name(), path, how, idx).as_bytes());
            must_fail(c, &what, &|| format!("{} made {} | aux={:?} | {}", path, how, aux, case.describe()), &mut || {
                verify::<S>(kind, &case.pubs, &q, &aux)
            });
        }
    }
    // repetitions exchanged, repeated, or taken from another run
    for arr in ["/commitments", "/elements", "/proof", "/commitment", "/challenge"] {
        let Some(J::Array(a)) = p.pointer(arr) else { continue };
        let n = a.len();
        for _ in 0..6 {
            let i = rng.next_u32() as usize % n;
            let j = rng.next_u32() as usize % n;
            if a[i] == a[j] {
                continue;
            }
            let mut q = p.clone();
            let k = rng.next_u32() % 3;
            {
                let b = q.pointer_mut(arr).unwrap().as_array_mut().unwrap();
                match k {
                    0 => b.swap(i, j),
                    1 => b[i] = a[j].clone(),
                    _ => b[i] = p2.pointer(arr).unwrap()[i].clone(),
                }
            }
            must_fail(c, &format!("{}: repetitions of {} mixed up", kind.name(), arr), &|| format!("{} {} {} | {}", i, j, k, case.describe()), &mut || {
                verify::<S>(kind, &case.pubs, &q, &aux)
            });
        }
        let mut q = p.clone();
        *q.pointer_mut(arr).unwrap() = p2.pointer(arr).unwrap().clone();
        must_fail(c, &format!("{}: {} of another run", kind.name(), arr), &|| case.describe(), &mut || verify::<S>(kind, &case.pubs, &q, &aux));
    }
}

/// Responses shifted so that exactly one verification equation breaks (in one repetition).
fn isolated<S: SchemeParams>(c: &Ctx, kind: Kind, idx: u64) {
    let rng = &mut rng_for(&format!("c11/isolated/{}", kind.name()), idx);
    let w = World::<S>::small(rng, 14, 15, 20);
    // a = 0 leaves w of enc-elg to its own equation
    let sk = if idx % 2 == 0 { ALL } else { 56 };
    let case = Case::<S>::new(&w, kind, rng, 8, 8, sk, 3);
    let aux = Aux::random(rng);
    let Ok(p) = case.prove(rng, &aux) else { return };
    if verify::<S>(kind, &case.pubs, &p, &aux) != Verdict::Accept {
        c.count("control: true statement NOT accepted (see C10)");
        return;
    }
    let int = |n: &Nat| Int::from(n.clone());
    let (n0, n1, ph0) = (int(&w.k0.n), int(&w.k1.n), int(&w.k0.phi));
    let q = int(&w.curve.n);
    let lam = int(&w.setup.lambda);
    // (pointer, shift, compensated by, which equation breaks)
    type Row<'a> = (String, Int, Option<String>, &'a str);
    let mut rows: Vec<Row> = vec![];
    let reps = S::SECURITY_PARAMETER;
    match kind {
        Kind::Enc => {
            rows.push(("/z1".into(), n0.clone(), Some("/z3".into()), "curve equation of z1"));
            rows.push(("/z3".into(), Int::small(1), None, "commitment equation"));
        }
        Kind::AffG => {
            rows.push(("/z1".into(), n0.mul(&ph0), Some("/z3".into()), "curve equation of z1"));
            rows.push(("/z2".into(), n0.clone(), Some("/z4".into()), "Paillier equation of the second key"));
            rows.push(("/z2".into(), n1.clone(), Some("/z4".into()), "Paillier equation of the first key"));
            rows.push(("/z3".into(), Int::small(1), None, "first commitment equation"));
            rows.push(("/z4".into(), Int::small(1), None, "second commitment equation"));
        }
        Kind::Dec => {
            for i in 0..reps {
                rows.push((format!("/elements/{}/z", i), n0.mul(&ph0), None, "curve equation of z"));
                rows.push((format!("/elements/{}/w", i), n0.clone(), None, "curve equation of w"));
            }
        }
        Kind::AffStar => {
            for i in 0..reps {
                rows.push((format!("/elements/{}/z", i), n0.mul(&ph0), None, "curve equation of z"));
                rows.push((format!("/elements/{}/z_prime", i), n0.clone(), None, "Paillier equation of the second key"));
                rows.push((format!("/elements/{}/z_prime", i), n1.clone(), None, "Paillier equation of the first key"));
            }
        }
        _ => return,
    }
    for (ptr, shift, comp, eq) in rows {
        let mut t = p.clone();
        let k = Int::small(if rng.next_u32() & 1 == 0 { 1 } else { -1 });
        let d = shift.mul(&k);
        add_signed(t.pointer_mut(&ptr).unwrap(), &d);
        if let Some(cp) = &comp {
            add_signed(t.pointer_mut(cp).unwrap(), &lam.mul(&d).neg());
        }
        let what = format!("{}: only the {} broken", kind.name(), eq);
        c.distinct(format!("{}{}{}", what, ptr, idx).as_bytes());
        must_fail(c, &what, &|| format!("{} shifted by {:?} | N0={:?} N1={:?} | aux={:?} | {}", ptr, d, w.k0.n, w.k1.n, aux, case.describe()), &mut || {
            verify::<S>(kind, &case.pubs, &t, &aux)
        });
        // control: the same shift times the curve order (and both moduli) keeps all the equations
        let mut t = p.clone();
        let full = match (kind, ptr.ends_with("z2"), ptr.ends_with("z_prime")) {
            (Kind::AffG, true, _) | (Kind::AffStar, _, true) => n0.mul(&n1).mul(&q),
            _ => shift.mul(&q),
        };
        if ptr.ends_with("z3") || ptr.ends_with("z4") {
            continue;
        }
        add_signed(t.pointer_mut(&ptr).unwrap(), &full);
        if let Some(cp) = &comp {
            add_signed(t.pointer_mut(cp).unwrap(), &lam.mul(&full).neg());
        }
        let v = verify::<S>(kind, &case.pubs, &t, &aux);
        c.count(if v == Verdict::Accept { "control: equivalent responses accepted" } else { "control: equivalent responses out of range" });
    }
    // the last factor: w of enc-elg when A is the identity
    if kind == Kind::Enc && idx % 2 == 1 {
        let mut t = p.clone();
        let x: crate::curve::Scalar<S> = from_json(&t["w"]).unwrap();
        t["w"] = sc_json::<S>(&w.curve, &sc(&x).add(&Nat::one()).rem(&w.curve.n));
        must_fail(c, "enc-elg: only the curve equation of w broken", &|| case.describe(), &mut || verify::<S>(kind, &case.pubs, &t, &aux));
    }
}

fn simulated<S: SchemeParams>(c: &Ctx, w: &World<S>, kind: Kind, idx: u64) {
    let rng = &mut rng_for(&format!("c11/sim/{}", kind.name()), idx);
    let case = Case::<S>::random(w, kind, rng);
    let aux = Aux::random(rng);
    let what = format!("{}: transcript simulated for a chosen challenge", kind.name());
    c.distinct(format!("{}{}", what, idx).as_bytes());
    if kind == Kind::Sch {
        let mut pubs = case.pubs.clone();
        let (com, proof) = simulate_sch(&case, &pubs, rng);
        pubs.insert("commitment", com);
        return must_fail(c, &what, &|| format!("{} {:?}", proof, pubs), &mut || verify::<S>(kind, &pubs, &proof, &aux));
    }
    let p = simulate(&case, &case.pubs, rng);
    let v = verify::<S>(kind, &case.pubs, &p, &aux);
    if let Verdict::NoDecode(e) = &v {
        c.inconclusive(format!("simulated {} does not decode: {}", kind.name(), e));
    }
    must_fail(c, &what, &|| format!("{} | {}", short(&p.to_string(), 1500), case.describe()), &mut || verify::<S>(kind, &case.pubs, &p, &aux));
}

fn bad_moduli<S: SchemeParams>(c: &Ctx, idx: u64) {
    let rng = &mut rng_for("c11/moduli", idx);
    let aux = Aux::random(rng);
    let bits = <Pp<S> as crate::paillier::PaillierParams>::PRIME_BITS;
    let h = bits - (rng.next_u32() % 3) * (bits / 4);
    let jac = |rng: &mut Rng, n: &Nat, s: i32| loop {
        let x = unit_below(rng, n);
        if x.jacobi(n) == s {
            break x;
        }
    };
    let m3 = |rng: &mut Rng, b: u32| prime_mod4(rng, b, 3);
    // control: a Blum modulus proved by the harness's own prover
    {
        let (p, q) = (m3(rng, h), m3(rng, h));
        let n = p.mul(&q);
        let wv = jac(rng, &n, -1);
        let (n, proof, okx, okz) = forge_mod::<S>(&[p, q], false, &wv, &aux);
        let mut pubs = Pubs::new();
        pubs.insert("pk0", pk_json::<S>(&n));
        let v = verify::<S>(Kind::Mod, &pubs, &proof, &aux);
        if v != Verdict::Accept || okx as usize != S::SECURITY_BITS || okz as usize != S::SECURITY_BITS {
            // not our layout: nothing can be said here
            c.count("mod: hash layout unknown, forged moduli skipped");
            c.note("the mod proof's hash layout differs from the harness's; forged-moduli cases skipped");
            return;
        }
        c.count("control: the harness's own mod proof accepted");
    }
    let mut try_one = |what: &str, primes: Vec<Nat>, square: bool, wv: &dyn Fn(&mut Rng, &Nat) -> Nat| {
        c.sample("forged moduli", what);
        c.distinct(format!("{}{}", what, idx).as_bytes());
        let mut n = primes.iter().fold(Nat::one(), |a, p| a.mul(p));
        if square {
            n = n.mul(&primes[0]);
        }
        must_fail(c, &format!("mod: {}", what), &|| format!("primes {:?} square={} aux={:?}", primes, square, aux), &mut || {
            let w = wv(rng, &n);
            let (n, proof, okx, okz) = forge_mod::<S>(&primes, square, &w, &aux);
            c.count_n("forged repetitions with a valid x", okx as u64);
            c.count_n("forged repetitions with a valid z", okz as u64);
            let mut pubs = Pubs::new();
            pubs.insert("pk0", pk_json::<S>(&n));
            verify::<S>(Kind::Mod, &pubs, &proof, &aux)
        });
    };
    let r2 = &mut rng_for("c11/moduli/p", idx);
    let (a, b, d) = (m3(r2, h), m3(r2, h / 2), m3(r2, h / 2 - 2));
    let p1 = prime_mod4(r2, h, 1);
    let q1 = prime_mod4(r2, h, 1);
    let any = |rng: &mut Rng, n: &Nat| jac(rng, n, -1);
    try_one("modulus is a prime", vec![m3(r2, 2 * h - 2)], false, &any);
    try_one("modulus has three prime factors", vec![a.clone(), b.clone(), d.clone()], false, &any);
    try_one("a factor is 1 mod 4", vec![a.clone(), p1.clone()], false, &any);
    try_one("both factors are 1 mod 4", vec![q1, p1.clone()], false, &any);
    let aa = a.clone();
    try_one("modulus is a square", vec![a.clone()], true, &move |rng, _| jac(rng, &aa, -1));
    try_one("modulus is not square-free", vec![b.clone(), a.clone()], true, &any);
    // w sharing factors with N satisfies the fourth-root equation for any number of factors
    let bd = b.mul(&d);
    try_one("three factors and a non-invertible w", vec![a.clone(), b.clone(), d.clone()], false, &move |_, _| bd.clone());
    let pp = p1.clone();
    try_one("a factor is 1 mod 4 and a non-invertible w", vec![a.clone(), p1], false, &move |_, _| pp.clone());
    try_one("w is zero", vec![a.clone(), b.clone(), d.clone()], false, &|_, _| Nat::zero());
    // gcd(N, phi) != 1: q = 2 k p + 1
    let p = m3(r2, h / 2);
    let mut k = Nat::from(1 + (r2.next_u32() % 1000) as u64);
    let q = loop {
        let q = p.mul(&k).shl(1).add(&Nat::one());
        if q.is_prime() && q.rem(&Nat::from(4)) == Nat::from(3) {
            break q;
        }
        k = k.add(&Nat::one());
    };
    try_one("modulus not coprime to its totient", vec![p, q], false, &any);
}

/// Structured variations of a value: those which leave some functions of it unchanged.
fn variations<S: SchemeParams>(cu: &CurveRef, pubs: &Pubs, ty: Ty, v: &J, rng: &mut Rng) -> Vec<(&'static str, J)> {
    let mut out: Vec<(&'static str, J)> = vec![];
    match ty {
        Pt => {
            let x = pt::<S>(v);
            out.push(("negated", to_json(&pt_mul::<S>(cu, &x, &Int::small(-1)))));
            out.push(("doubled", to_json(&(x + x))));
            out.push(("+G", to_json(&(x + Point::<S>::generator()))));
            out.push(("identity", to_json(&Point::<S>::identity())));
            out.push(("random", to_json(&mk_sc::<S>(cu, &Nat::random_below(rng, &cu.n)).mul_by_generator())));
        }
        Sc => {
            let x = sc(&from_json::<crate::curve::Scalar<S>>(v).unwrap());
            out.push(("negated", sc_json::<S>(cu, &cu.n.sub(&x).rem(&cu.n))));
            out.push(("doubled", sc_json::<S>(cu, &x.add(&x).rem(&cu.n))));
            out.push(("+1", sc_json::<S>(cu, &x.add(&Nat::one()).rem(&cu.n))));
            out.push(("zero", sc_json::<S>(cu, &Nat::zero())));
        }
        Res(m) => {
            let n = modulus(pubs, m);
            let x = num(v).rem(&n);
            out.push(("negated", uint_json::<S>(&n.sub(&x).rem(&n))));
            out.push(("squared", uint_json::<S>(&x.mul(&x).rem(&n))));
            if let Some(i) = x.invmod(&n) {
                out.push(("inverted", uint_json::<S>(&i)));
            }
            out.push(("random", uint_json::<S>(&unit_below(rng, &n))));
        }
        Ct(m) => {
            let n = modulus(pubs, m);
            let n2 = n.mul(&n);
            let x = ct_num(v).rem(&n2);
            out.push(("negated", ct_json::<S>(&n2.sub(&x).rem(&n2))));
            out.push(("squared", ct_json::<S>(&x.mul(&x).rem(&n2))));
            if let Some(i) = x.invmod(&n2) {
                out.push(("inverted", ct_json::<S>(&i)));
            }
            let shift = |k: &Nat| x.mul(&Nat::one().add(&n.mul(k))).rem(&n2);
            out.push(("plaintext + 1", ct_json::<S>(&shift(&Nat::one()))));
            out.push(("plaintext + curve order", ct_json::<S>(&shift(&cu.n))));
            out.push(("randomizer", ct_json::<S>(&x.mul(&unit_below(rng, &n).powmod(&n, &n2)).rem(&n2))));
        }
        Sg => {
            let x = signed_of(v);
            let b = v["bound"].as_u64().unwrap() as u32;
            out.push(("negated", signed_json(&x.neg(), b)));
            out.push(("+1", signed_json(&x.add(&Int::small(1)), b)));
            out.push(("-1", signed_json(&x.add(&Int::small(-1)), b)));
            out.push(("+ curve order", signed_json(&x.add(&Int::from(cu.n.clone())), b)));
            out.push(("- curve order", signed_json(&x.add(&Int::from(cu.n.clone()).neg()), b)));
            out.push(("zero", signed_json(&Int::zero(), b)));
        }
        Exp => {
            let x = num(v);
            out.push(("+1", uint_json::<S>(&x.add(&Nat::one()))));
            out.push(("doubled", uint_json::<S>(&x.add(&x).rem(&modulus(pubs, "setup")))));
            out.push(("zero", uint_json::<S>(&Nat::zero())));
        }
        Bool => out.push(("flipped", J::Bool(!v.as_bool().unwrap()))),
        Bits => {}
    }
    out.retain(|x| &x.1 != v);
    out
}

/// With the challenge known in advance, parts of proof and statement are varied alone and together; a verifier that
/// accepts must be right by the harness's own evaluation of every equation and range.
fn equation_oracle(c: &Ctx, real: &World<Weak>, kind: Kind, idx: u64) {
    type S = Weak;
    let rng = &mut rng_for(&format!("c11/equations/{}", kind.name()), idx);
    STREAM.with(|s| s.set((idx, 0)));
    let mut sm;
    let w = match kind {
        Kind::Prm | Kind::Mod => real,
        _ if idx % 4 == 3 && kind != Kind::Fac => real,
        _ => {
            sm = World::<S>::small(rng, 14, 15, 13);
            if kind == Kind::Fac {
                sm.k0 = World::<S>::new(rng, false).k0;
            }
            &sm
        }
    };
    let parties = 1 + rng.next_u32() as usize % 9;
    let case = Case::<S>::new(w, kind, rng, 8, 8, ALL, parties);
    let aux = Aux::random(rng);
    let Ok(honest) = case.prove(rng, &aux) else { return };
    if defect::<S>(kind, w, &case.pubs, &honest).is_some() || verify::<S>(kind, &case.pubs, &honest, &aux) != Verdict::Accept {
        c.count("control: no honest proof to start from");
        return;
    }
    // the concrete places: the fields of one repetition (every value of a small challenge bit occurs over the cases)
    let mut places: Vec<(Option<&'static str>, String, Ty)> = vec![];
    let rep = rng.next_u32() as usize;
    for (p, ty) in fields(kind) {
        let v = expand(&honest, p);
        if ty != Bits && !p.ends_with("/e") && p != "/e" && p != "/challenge" && !v.is_empty() {
            places.push((None, v[rep % v.len()].clone(), ty));
        }
    }
    for (k, p, ty) in pub_fields(kind) {
        places.push((Some(k), p.into(), ty));
    }
    let get = |pl: &(Option<&'static str>, String, Ty), pubs: &Pubs, f: &J| match pl.0 {
        Some(k) => pubs[k].pointer(&pl.1).unwrap().clone(),
        None => f.pointer(&pl.1).unwrap().clone(),
    };
    let cu = &w.curve;
    let mut attempt = |picks: &[(usize, usize)], rng: &mut Rng| {
        let (mut pubs, mut f) = (case.pubs.clone(), honest.clone());
        let mut what = String::new();
        for (i, how) in picks {
            let pl = &places[*i];
            let v = get(pl, &pubs, &f);
            let vs = variations::<S>(cu, &case.pubs, pl.2, &v, rng);
            if vs.is_empty() {
                continue;
            }
            let (name, nv) = vs[how % vs.len()].clone();
            what += &format!("{}{} {}; ", pl.0.unwrap_or(""), pl.1, name);
            match pl.0 {
                Some(k) => *pubs.get_mut(k).unwrap().pointer_mut(&pl.1).unwrap() = nv,
                None => *f.pointer_mut(&pl.1).unwrap() = nv,
            }
        }
        let key = format!("equations {}: {}", kind.name(), if picks.len() == 1 { "one part" } else { "several parts" });
        c.count(&key);
        c.distinct(format!("{}{}{}", key, what, idx).as_bytes());
        c.sample(&key, what.clone());
        match verify::<S>(kind, &pubs, &f, &aux) {
            Verdict::Accept => match defect::<S>(kind, w, &pubs, &f) {
                Some(d) => c.violation(&format!("equations: {}", kind.name()), "a proof is accepted although an equation or range does not hold", format!("{} | varied: {} | publics {} | proof {}", d, what, short(&serde_json::to_string(&pubs).unwrap(), 1200), short(&f.to_string(), 1500))),
                None => c.count("accepted: everything holds"),
            },
            Verdict::Reject => c.count("rejected"),
            Verdict::NoDecode(_) => c.count("rejected when decoding"),
            Verdict::Panic(_) => c.count("not accepted (panic, see C14)"),
        }
    };
    let n = places.len();
    for i in 0..n {
        for how in 0..6 {
            attempt(&[(i, how)], rng);
        }
    }
    // the same variation in two places
    for i in 0..n {
        for j in 0..i {
            attempt(&[(i, 0), (j, 0)], rng);
            if thorough() || rng.next_u32() % 3 == 0 {
                let h = rng.next_u32() as usize % 6;
                attempt(&[(i, h), (j, h)], rng);
            }
        }
    }
    // negations of arbitrary collections, then arbitrary variations of some
    for k in 0..if thorough() { 300 } else { 60 } {
        let m = rng.next_u64();
        let picks: Vec<(usize, usize)> = (0..n).filter(|i| m >> (i % 64) & 1 == 1).map(|i| (i, 0)).collect();
        if !picks.is_empty() {
            attempt(&picks, rng);
        }
        if k % 3 == 0 {
            let picks: Vec<(usize, usize)> = (0..3).map(|_| (rng.next_u32() as usize % n, rng.next_u32() as usize % 6)).collect();
            attempt(&picks, rng);
        }
    }
}

pub fn main() -> i32 {
    type S = TestParams;
    let c = Ctx::new("C11");
    let nw = scale(6, 24);
    let ws: Vec<std::sync::OnceLock<World<S>>> = (0..nw).map(|_| Default::default()).collect();
    c.par(nw, |i| {
        let rng = &mut rng_for("c11/world", i);
        let _ = ws[i as usize].set(World::new(rng, true));
    });
    let weak: std::sync::OnceLock<World<Weak>> = Default::default();
    let weak = &weak;
    type Job<'a> = std::boxed::Box<dyn Fn() + Sync + Send + 'a>;
    let mut jobs: Vec<Job> = vec![];
    let c = &c;
    let ws = &ws;
    for kind in KINDS {
        let slow = matches!(kind, Kind::Dec | Kind::AffStar | Kind::Mod | Kind::Prm);
        for i in 0..if slow { scale(8, 60) } else { scale(32, 400) } {
            jobs.push(std::boxed::Box::new(move || tampering(c, ws[(i % nw) as usize].get().unwrap(), kind, i, if thorough() { 9 } else if slow { 2 } else { 9 })));
        }
        for i in 0..if slow { scale(8, 60) } else { scale(16, 300) } {
            jobs.push(std::boxed::Box::new(move || false_statements(c, ws[(i % nw) as usize].get().unwrap(), kind, i)));
        }
        for i in 0..scale(8, 200) {
            jobs.push(std::boxed::Box::new(move || simulated(c, ws[(i % nw) as usize].get().unwrap(), kind, i)));
        }
        for i in 0..if slow { scale(24, 400) } else { scale(48, 1500) } {
            jobs.push(std::boxed::Box::new(move || equation_oracle(c, weak.get_or_init(|| World::new(&mut rng_for("c11/weak", 0), true)), kind, i)));
        }
        if !matches!(kind, Kind::Enc | Kind::AffG | Kind::Dec | Kind::AffStar) {
            continue;
        }
        for i in 0..if slow { scale(4, 30) } else { scale(20, 300) } {
            jobs.push(std::boxed::Box::new(move || isolated::<S>(c, kind, i)));
        }
    }
    for i in 0..scale(8, 200) {
        jobs.push(std::boxed::Box::new(move || bad_moduli::<S>(c, i)));
    }
    // a fixed pseudo-random order, so that a cut run still samples everything
    let rng = &mut rng_for("c11/order", 0);
    for i in (1..jobs.len()).rev() {
        jobs.swap(i, rng.next_u64() as usize % (i + 1));
    }
    let jobs = &jobs;
    c.par(jobs.len() as u64, |j| jobs[j as usize]());
    c.finish(
        "an evaluation is one verification of a proof for a false statement, a tampered proof, a simulated transcript or a forged modulus (or a control); distinct = (proof type, altered part, alteration, case)",
        &["An acceptance must repeat for a fresh attempt: test parameters leave a chance of 2^-16 per prm/mod attempt.",
          "Replacing a response by another valid response to the same challenge (-x in the mod proof, a multiple of the group order in prm) is not counted as tampering."],
    )
}
