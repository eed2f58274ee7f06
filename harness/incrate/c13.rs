// C13: a proof is bound to its statement, setup, session and prover: everything the verifier uses enters the challenge.
// Each probe changes exactly one hashed item (adapting responses, never commitments or other inputs) so that every
// verification equation and range still holds; only the challenge can then tell.
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::util::*;
use super::zkeq::*;
use super::zkfix::*;
use super::zkforge::*;
use crate::dev::TestParams;
use crate::paillier::PaillierParams;
use crate::params::SchemeParams;

type S = TestParams;
const ALL: u32 = 63;

struct Probe {
    item: &'static str,
    pubs: Pubs,
    proof: J,
}

fn bump(x: &Nat, by: &Nat, n: &Nat) -> Nat {
    x.mul(by).rem(n)
}

/// k coprime to m
fn coprime(rng: &mut Rng, m: &Nat) -> Nat {
    loop {
        let k = Nat::random_below(rng, m);
        if k > Nat::one() && k.gcd(m) == Nat::one() {
            return k;
        }
    }
}

/// Chinese remainder for the integer closest to zero from below 2 moduli.
fn crt2(a: (&Nat, &Nat), b: (&Nat, &Nat)) -> Int {
    Int::from(crt(&[(a.0.clone(), a.1.clone()), (b.0.clone(), b.1.clone())]))
}

fn probes(case: &Case<S>, aux: &Aux, rng: &mut Rng) -> Vec<Probe> {
    let w = case.w;
    let c = &w.curve;
    let q = &c.n;
    let kind = case.kind;
    let pubs = &case.pubs;
    let Ok(honest) = case.prove(rng, aux) else { return vec![] };
    let mut out: Vec<Probe> = vec![];
    let int = |n: &Nat| Int::from(n.clone());
    let gpt = |k: &str| pt::<S>(&pubs[k]);
    let other_point = |rng: &mut Rng| to_json(&case.gn(&Nat::random_below(rng, q)));
    let with = |k: &'static str, v: J| {
        let mut p = pubs.clone();
        p.insert(k, v);
        p
    };
    let (n0, n1) = (&w.k0.n, &w.k1.n);
    let (n02, n12) = (n0.mul(n0), n1.mul(n1));
    let st = &w.setup;
    let lam = int(&st.lambda);
    let point = |x: &crate::curve::Point<S>| to_json(x);
    let mul = |x: &crate::curve::Point<S>, k: &Int| pt_mul::<S>(c, x, k);
    let invq = |x: &Nat| x.rem(q).invmod(q);
    let mut add = |item: &'static str, pubs: Pubs, proof: J| out.push(Probe { item, pubs, proof });
    // proof made with `key` falsified, verified with the true statement
    macro_rules! swap_back {
        ($key:expr, $wrong:expr) => {{
            let wrong = $wrong;
            if let Ok(p) = case.prove_as(rng, &with($key, wrong), aux) {
                add($key, pubs.clone(), p);
            }
        }};
    }
    let mut sd = rng_for("c13/inner", rng.next_u64());
    match kind {
        Kind::Sch => {
            swap_back!("cap_x", other_point(&mut sd));
            // commitment chosen after the challenge
            let f = with("cap_x", other_point(&mut sd));
            let p = case.prove_as(rng, &f, aux).unwrap();
            let (e, z) = (int(&sc_of::<S>(&p["challenge"])), int(&sc_of::<S>(&p["proof"])));
            let com = case.g(&z) + mul(&pt::<S>(&f["cap_x"]), &e.neg());
            let mut f2 = f.clone();
            f2.insert("commitment", point(&com));
            add("commitment", f2, p);
        }
        Kind::Elog => {
            swap_back!("l", other_point(&mut sd));
            swap_back!("m", other_point(&mut sd));
            swap_back!("y", other_point(&mut sd));
            let nums = |p: &J| (int(&sc_of::<S>(&p["e"])), int(&sc_of::<S>(&p["z"])), int(&sc_of::<S>(&p["u"])));
            // commitments chosen after the challenge
            for (key, com) in [("l", "cap_a"), ("m", "cap_n"), ("y", "cap_b")] {
                let f = with(key, other_point(&mut sd));
                let mut p = case.prove_as(rng, &f, aux).unwrap();
                let (e, z, u) = nums(&p);
                let lhs = match key {
                    "l" => case.g(&z),
                    "m" => case.g(&u) + mul(&gpt("x"), &z),
                    _ => mul(&gpt("h"), &u),
                };
                p[com] = point(&(lhs + mul(&pt::<S>(&f[key]), &e.neg())));
                add(com, f, p);
            }
            // X and h chosen after the challenge
            let f = with("m", other_point(&mut sd));
            let p = case.prove_as(rng, &f, aux).unwrap();
            let (e, z, u) = nums(&p);
            if let Some(iz) = invq(&z.mag) {
                let x = mul(&(pt::<S>(&p["cap_n"]) + mul(&pt::<S>(&f["m"]), &e) + case.g(&u.neg())), &int(&iz));
                let mut f2 = f.clone();
                f2.insert("x", point(&x));
                add("x", f2, p);
            }
            let f = with("y", other_point(&mut sd));
            let p = case.prove_as(rng, &f, aux).unwrap();
            let (e, _, u) = nums(&p);
            if let Some(iu) = invq(&u.mag) {
                let h = mul(&(pt::<S>(&p["cap_b"]) + mul(&pt::<S>(&f["y"]), &e)), &int(&iu));
                let mut f2 = f.clone();
                f2.insert("h", point(&h));
                add("h", f2, p);
            }
        }
        Kind::Enc => {
            swap_back!("x", other_point(&mut sd));
            swap_back!("b", other_point(&mut sd));
            let get = |p: &J| (int(&sc_of::<S>(&p["e"])), signed_of(&p["z1"]), int(&sc_of::<S>(&p["w"])), num(&p["z2"]));
            // D, Y, Z after the challenge
            let f = with("c", ct_json::<S>(&unit_below(&mut sd, &n02)));
            let mut p = case.prove_as(rng, &f, aux).unwrap();
            let (e, z1, _, z2) = get(&p);
            p["cap_d"] = ct_json::<S>(&enc_num(n0, &z1, &z2).mul(&pw(&ct_num(&f["c"]), &e.neg(), &n02)).rem(&n02));
            add("cap_d", f, p);
            let f = with("x", other_point(&mut sd));
            let mut p = case.prove_as(rng, &f, aux).unwrap();
            let (e, z1, wv, _) = get(&p);
            p["cap_y"] = point(&(mul(&gpt("a"), &wv) + case.g(&z1) + mul(&pt::<S>(&f["x"]), &e.neg())));
            add("cap_y", f.clone(), p);
            let p = case.prove_as(rng, &f, aux).unwrap();
            let (e, z1, wv, _) = get(&p);
            if let Some(iw) = invq(&wv.mag) {
                let a = mul(&(pt::<S>(&p["cap_y"]) + mul(&pt::<S>(&f["x"]), &e) + case.g(&z1.neg())), &int(&iw));
                let mut f2 = f.clone();
                f2.insert("a", point(&a));
                add("a", f2, p);
            }
            let f = with("b", other_point(&mut sd));
            let mut p = case.prove_as(rng, &f, aux).unwrap();
            let (e, _, wv, _) = get(&p);
            p["cap_z"] = point(&(case.g(&wv) + mul(&pt::<S>(&f["b"]), &e.neg())));
            add("cap_z", f, p);
            // T, S
            let (e, z1, _, z2) = get(&honest);
            let mut p = honest.clone();
            p["cap_t"] = uint_json::<S>(&bump(&num(&p["cap_t"]), &st.t, &st.n));
            add_signed(&mut p["z3"], &Int::small(1));
            add("cap_t", pubs.clone(), p);
            let mut p = honest.clone();
            p["cap_s"] = uint_json::<S>(&bump(&num(&p["cap_s"]), &st.t, &st.n));
            add_signed(&mut p["z3"], &e);
            add("cap_s", pubs.clone(), p);
            // C
            let v = unit_below(&mut sd, n0);
            let mut p = honest.clone();
            p["z2"] = uint_json::<S>(&z2.mul(&pw(&v, &e, n0)).rem(n0));
            add("c", with("c", ct_json::<S>(&ct_num(&pubs["c"]).mul(&v.powmod(n0, &n02)).rem(&n02))), p);
            // pk0
            let k = bigger_key(&mut sd, n0);
            let nn = k.n.mul(&k.n);
            let val = ct_num(&honest["cap_d"]).mul(&pw(&ct_num(&pubs["c"]), &e, &nn)).rem(&nn);
            if val.gcd(&k.n) == Nat::one() {
                let (m, rho) = k.open(&val);
                let z1n = crt2((&m, &k.n), (&z1.modulo(q), q));
                let mut p = honest.clone();
                p["z2"] = uint_json::<S>(&rho);
                let d = z1n.sub(&z1);
                add_signed(&mut p["z1"], &d);
                add_signed(&mut p["z3"], &lam.mul(&d).neg());
                add("pk0", with("pk0", k.wire()), p);
            }
            for (item, setup, f) in setups(st, &mut sd, &[&num(&honest["cap_s"]), &num(&honest["cap_t"])]) {
                let mut p = honest.clone();
                let rhs = |n: &Nat| num(&honest["cap_t"]).mul(&pw(&num(&honest["cap_s"]), &e, n)).rem(n);
                p["z3"] = signed_json(&f(&z1, &signed_of(&honest["z3"]), &rhs), 1);
                add(item, with("setup", setup), p);
            }
        }
        Kind::AffG => {
            swap_back!("x", other_point(&mut sd));
            swap_back!("y", ct_json::<S>(&unit_below(&mut sd, &n12)));
            swap_back!("d", ct_json::<S>(&unit_below(&mut sd, &n02)));
            let get = |p: &J| (int(&sc_of::<S>(&p["e"])), signed_of(&p["z1"]), signed_of(&p["z2"]), num(&p["w"]), num(&p["w_y"]));
            let f = with("d", ct_json::<S>(&unit_below(&mut sd, &n02)));
            let mut p = case.prove_as(rng, &f, aux).unwrap();
            let (e, z1, z2, wv, _) = get(&p);
            p["cap_a"] = ct_json::<S>(&pw(&ct_num(&pubs["c"]), &z1, &n02).mul(&enc_num(n0, &z2, &wv)).rem(&n02).mul(&pw(&ct_num(&f["d"]), &e.neg(), &n02)).rem(&n02));
            add("cap_a", f, p);
            let f = with("x", other_point(&mut sd));
            let mut p = case.prove_as(rng, &f, aux).unwrap();
            let (e, z1, ..) = get(&p);
            p["cap_b_x"] = point(&(case.g(&z1) + mul(&pt::<S>(&f["x"]), &e.neg())));
            add("cap_b_x", f, p);
            let f = with("y", ct_json::<S>(&unit_below(&mut sd, &n12)));
            let mut p = case.prove_as(rng, &f, aux).unwrap();
            let (e, _, z2, _, wy) = get(&p);
            p["cap_b_y"] = ct_json::<S>(&enc_num(n1, &z2, &wy).mul(&pw(&ct_num(&f["y"]), &e, &n12)).rem(&n12));
            add("cap_b_y", f, p);
            let (e, z1, z2, wv, wy) = get(&honest);
            for (item, z, d) in [("cap_e", "z3", Int::small(1)), ("cap_f", "z4", Int::small(1)), ("cap_s", "z3", e.clone()), ("cap_t", "z4", e.clone())] {
                let mut p = honest.clone();
                p[item] = uint_json::<S>(&bump(&num(&p[item]), &st.t, &st.n));
                add_signed(&mut p[z], &d);
                add(item, pubs.clone(), p);
            }
            let v = unit_below(&mut sd, n0);
            let vn = v.powmod(n0, &n02);
            let mut p = honest.clone();
            p["w"] = uint_json::<S>(&wv.mul(&pw(&v, &z1.neg(), n0)).rem(n0));
            add("c", with("c", ct_json::<S>(&ct_num(&pubs["c"]).mul(&vn).rem(&n02))), p);
            let mut p = honest.clone();
            p["w"] = uint_json::<S>(&wv.mul(&pw(&v, &e, n0)).rem(n0));
            add("d", with("d", ct_json::<S>(&ct_num(&pubs["d"]).mul(&vn).rem(&n02))), p);
            let v = unit_below(&mut sd, n1);
            let mut p = honest.clone();
            p["w_y"] = uint_json::<S>(&wy.mul(&pw(&v, &e.neg(), n1)).rem(n1));
            add("y", with("y", ct_json::<S>(&ct_num(&pubs["y"]).mul(&v.powmod(n1, &n12)).rem(&n12))), p);
            // keys
            let k = bigger_key(&mut sd, n0);
            let nn = k.n.mul(&k.n);
            if ct_num(&pubs["c"]).gcd(&k.n) == Nat::one() {
                let val = ct_num(&honest["cap_a"]).mul(&pw(&ct_num(&pubs["d"]), &e, &nn)).rem(&nn).mul(&pw(&ct_num(&pubs["c"]), &z1.neg(), &nn)).rem(&nn);
                if val.gcd(&k.n) == Nat::one() && k.n.gcd(n1) == Nat::one() {
                    let (m, rho) = k.open(&val);
                    let z2n = crt2((&m, &k.n), (&z2.modulo(n1), n1));
                    let mut p = honest.clone();
                    p["w"] = uint_json::<S>(&rho);
                    let d = z2n.sub(&z2);
                    add_signed(&mut p["z2"], &d);
                    add_signed(&mut p["z4"], &lam.mul(&d).neg());
                    add("pk0", with("pk0", k.wire()), p);
                }
            }
            let k = bigger_key(&mut sd, n1);
            let nn = k.n.mul(&k.n);
            if ct_num(&pubs["y"]).gcd(&k.n) == Nat::one() {
                let val = ct_num(&honest["cap_b_y"]).mul(&pw(&ct_num(&pubs["y"]), &e.neg(), &nn)).rem(&nn);
                if val.gcd(&k.n) == Nat::one() && k.n.gcd(n0) == Nat::one() {
                    let (m, rho) = k.open(&val);
                    let z2n = crt2((&m, &k.n), (&z2.modulo(n0), n0));
                    let mut p = honest.clone();
                    p["w_y"] = uint_json::<S>(&rho);
                    let d = z2n.sub(&z2);
                    add_signed(&mut p["z2"], &d);
                    add_signed(&mut p["z4"], &lam.mul(&d).neg());
                    add("pk1", with("pk1", k.wire()), p);
                }
            }
            let vals: Vec<Nat> = ["cap_e", "cap_s", "cap_f", "cap_t"].iter().map(|k| num(&honest[*k])).collect();
            for (item, setup, f) in setups(st, &mut sd, &vals.iter().collect::<Vec<_>>()) {
                let mut p = honest.clone();
                let r1 = |n: &Nat| vals[0].mul(&pw(&vals[1], &e, n)).rem(n);
                let r2 = |n: &Nat| vals[2].mul(&pw(&vals[3], &e, n)).rem(n);
                p["z3"] = signed_json(&f(&z1, &signed_of(&honest["z3"]), &r1), 1);
                p["z4"] = signed_json(&f(&z2, &signed_of(&honest["z4"]), &r2), 1);
                add(item, with("setup", setup), p);
            }
        }
        Kind::Dec => {
            swap_back!("x", other_point(&mut sd));
            swap_back!("s", other_point(&mut sd));
            swap_back!("d", ct_json::<S>(&unit_below(&mut sd, &n02)));
            // the setup only enters the hash
            add("setup", with("setup", Setup::random(&mut sd, 20).json::<S>()), honest.clone());
            for (key, com) in [("d", "cap_a"), ("x", "cap_c"), ("s", "cap_b")] {
                let f = with(key, if key == "d" { ct_json::<S>(&unit_below(&mut sd, &n02)) } else { other_point(&mut sd) });
                let mut p = case.prove_as(rng, &f, aux).unwrap();
                for (i, b) in bits_of(&p["e"]).iter().enumerate() {
                    let e = Int::small(*b as i64);
                    let el = p["elements"][i].clone();
                    let (z, wv) = (signed_of(&el["z"]), signed_of(&el["w"]));
                    p["commitments"][i][com] = match key {
                        "d" => ct_json::<S>(&enc_num(n0, &wv, &num(&el["nu"])).mul(&pw(&ct_num(&pubs["k"]), &z.neg(), &n02)).rem(&n02).mul(&pw(&ct_num(&f["d"]), &e.neg(), &n02)).rem(&n02)),
                        "x" => point(&(case.g(&z) + mul(&pt::<S>(&f["x"]), &e.neg()))),
                        _ => point(&(mul(&gpt("g"), &wv) + mul(&pt::<S>(&f["s"]), &e.neg()))),
                    };
                }
                add(com, f, p);
            }
            let bits = bits_of(&honest["e"]);
            let v = unit_below(&mut sd, n0);
            let vn = v.powmod(n0, &n02);
            let mut pk_ = honest.clone(); // K v^N
            let mut pd = honest.clone(); // D v^N
            let mut pg = honest.clone(); // G' = g' G
            let mut pn = honest.clone(); // N'
            let g2 = coprime(&mut sd, q);
            let ig2 = g2.invmod(q).unwrap();
            let k = bigger_key(&mut sd, n0);
            let nn = k.n.mul(&k.n);
            let mut n_ok = ct_num(&pubs["k"]).gcd(&k.n) == Nat::one() && ct_num(&pubs["d"]).gcd(&k.n) == Nat::one();
            for (i, b) in bits.iter().enumerate() {
                let e = Int::small(*b as i64);
                let el = &honest["elements"][i];
                let (z, wv, nu) = (signed_of(&el["z"]), signed_of(&el["w"]), num(&el["nu"]));
                pk_["elements"][i]["nu"] = uint_json::<S>(&nu.mul(&pw(&v, &z, n0)).rem(n0));
                pd["elements"][i]["nu"] = uint_json::<S>(&nu.mul(&pw(&v, &e, n0)).rem(n0));
                let target = wv.modulo(q).mul(&case.s3).rem(q).mul(&ig2).rem(q);
                pg["elements"][i]["w"] = signed_json(&crt2((&target, q), (&wv.modulo(n0), n0)), 1);
                if n_ok {
                    let val = ct_num(&honest["commitments"][i]["cap_a"]).mul(&pw(&ct_num(&pubs["d"]), &e, &nn)).rem(&nn).mul(&pw(&ct_num(&pubs["k"]), &z, &nn)).rem(&nn);
                    if val.gcd(&k.n) != Nat::one() {
                        n_ok = false;
                        continue;
                    }
                    let (m, rho) = k.open(&val);
                    pn["elements"][i]["w"] = signed_json(&crt2((&m, &k.n), (&wv.modulo(q), q)), 1);
                    pn["elements"][i]["nu"] = uint_json::<S>(&rho);
                }
            }
            add("k", with("k", ct_json::<S>(&ct_num(&pubs["k"]).mul(&vn).rem(&n02))), pk_);
            add("d", with("d", ct_json::<S>(&ct_num(&pubs["d"]).mul(&vn).rem(&n02))), pd);
            if !case.s3.is_zero() {
                add("g", with("g", point(&case.gn(&g2))), pg);
            }
            if n_ok {
                add("pk0", with("pk0", k.wire()), pn);
            }
        }
        Kind::AffStar => {
            swap_back!("x", other_point(&mut sd));
            swap_back!("y", ct_json::<S>(&unit_below(&mut sd, &n12)));
            swap_back!("d", ct_json::<S>(&unit_below(&mut sd, &n02)));
            for (key, com) in [("d", "cap_a"), ("x", "cap_r"), ("y", "cap_b")] {
                let wrong = match key {
                    "d" => ct_json::<S>(&unit_below(&mut sd, &n02)),
                    "y" => ct_json::<S>(&unit_below(&mut sd, &n12)),
                    _ => other_point(&mut sd),
                };
                let f = with(key, wrong);
                let mut p = case.prove_as(rng, &f, aux).unwrap();
                for (i, b) in bits_of(&p["e"]).iter().enumerate() {
                    let e = Int::small(*b as i64);
                    let el = p["elements"][i].clone();
                    let (z, zp) = (signed_of(&el["z"]), signed_of(&el["z_prime"]));
                    p["commitments"][i][com] = match key {
                        "d" => ct_json::<S>(&pw(&ct_num(&pubs["c"]), &z, &n02).mul(&enc_num(n0, &zp, &num(&el["w"]))).rem(&n02).mul(&pw(&ct_num(&f["d"]), &e.neg(), &n02)).rem(&n02)),
                        "x" => point(&(case.g(&z) + mul(&pt::<S>(&f["x"]), &e.neg()))),
                        _ => ct_json::<S>(&enc_num(n1, &zp, &num(&el["lambda"])).mul(&pw(&ct_num(&f["y"]), &e, &n12)).rem(&n12)),
                    };
                }
                add(com, f, p);
            }
            let bits = bits_of(&honest["e"]);
            let v = unit_below(&mut sd, n0);
            let v1 = unit_below(&mut sd, n1);
            let vn = v.powmod(n0, &n02);
            let (mut pc, mut pd, mut py, mut pn, mut pn1) = (honest.clone(), honest.clone(), honest.clone(), honest.clone(), honest.clone());
            let k = bigger_key(&mut sd, n0);
            let kk = bigger_key(&mut sd, n1);
            let (nn, nn1) = (k.n.mul(&k.n), kk.n.mul(&kk.n));
            let one = Nat::one();
            let mut ok0 = ct_num(&pubs["c"]).gcd(&k.n) == one && ct_num(&pubs["d"]).gcd(&k.n) == one && k.n.gcd(n1) == one;
            let mut ok1 = ct_num(&pubs["y"]).gcd(&kk.n) == one && kk.n.gcd(n0) == one;
            for (i, b) in bits.iter().enumerate() {
                let e = Int::small(*b as i64);
                let el = &honest["elements"][i];
                let cm = &honest["commitments"][i];
                let (z, zp, wv, la) = (signed_of(&el["z"]), signed_of(&el["z_prime"]), num(&el["w"]), num(&el["lambda"]));
                pc["elements"][i]["w"] = uint_json::<S>(&wv.mul(&pw(&v, &z.neg(), n0)).rem(n0));
                pd["elements"][i]["w"] = uint_json::<S>(&wv.mul(&pw(&v, &e, n0)).rem(n0));
                py["elements"][i]["lambda"] = uint_json::<S>(&la.mul(&pw(&v1, &e.neg(), n1)).rem(n1));
                if ok0 {
                    let val = ct_num(&cm["cap_a"]).mul(&pw(&ct_num(&pubs["d"]), &e, &nn)).rem(&nn).mul(&pw(&ct_num(&pubs["c"]), &z.neg(), &nn)).rem(&nn);
                    ok0 = val.gcd(&k.n) == one;
                    if ok0 {
                        let (m, rho) = k.open(&val);
                        pn["elements"][i]["z_prime"] = signed_json(&crt2((&m, &k.n), (&zp.modulo(n1), n1)), 1);
                        pn["elements"][i]["w"] = uint_json::<S>(&rho);
                    }
                }
                if ok1 {
                    let val = ct_num(&cm["cap_b"]).mul(&pw(&ct_num(&pubs["y"]), &e.neg(), &nn1)).rem(&nn1);
                    ok1 = val.gcd(&kk.n) == one;
                    if ok1 {
                        let (m, rho) = kk.open(&val);
                        pn1["elements"][i]["z_prime"] = signed_json(&crt2((&m, &kk.n), (&zp.modulo(n0), n0)), 1);
                        pn1["elements"][i]["lambda"] = uint_json::<S>(&rho);
                    }
                }
            }
            add("c", with("c", ct_json::<S>(&ct_num(&pubs["c"]).mul(&vn).rem(&n02))), pc);
            add("d", with("d", ct_json::<S>(&ct_num(&pubs["d"]).mul(&vn).rem(&n02))), pd);
            add("y", with("y", ct_json::<S>(&ct_num(&pubs["y"]).mul(&v1.powmod(n1, &n12)).rem(&n12))), py);
            if ok0 {
                add("pk0", with("pk0", k.wire()), pn);
            }
            if ok1 {
                add("pk1", with("pk1", kk.wire()), pn1);
            }
        }
        Kind::Fac => {
            let e = signed_of(&honest["e"]);
            let (z1, z2) = (signed_of(&honest["z1"]), signed_of(&honest["z2"]));
            for (item, z, d) in [("cap_a", "w1", Int::small(1)), ("cap_b", "w2", Int::small(1)), ("cap_t", "v", Int::small(1)), ("cap_p", "w1", e.clone())] {
                let mut p = honest.clone();
                p[item] = uint_json::<S>(&bump(&num(&p[item]), &st.t, &st.n));
                add_signed(&mut p[z], &d);
                add(item, pubs.clone(), p);
            }
            let mut p = honest.clone();
            p["cap_q"] = uint_json::<S>(&bump(&num(&p["cap_q"]), &st.t, &st.n));
            add_signed(&mut p["w2"], &e);
            add_signed(&mut p["v"], &z1.neg());
            add("cap_q", pubs.clone(), p);
            // another N
            let mut p = honest.clone();
            let d = int(n1).sub(&int(n0));
            add_signed(&mut p["v"], &lam.mul(&e).mul(&d));
            add("pk0", with("pk0", w.k1.wire()), p);
            let vals: Vec<Nat> = ["cap_p", "cap_q", "cap_a", "cap_b", "cap_t"].iter().map(|k| num(&honest[*k])).collect();
            for (item, setup, f) in setups(st, &mut sd, &vals.iter().collect::<Vec<_>>()) {
                let mut p = honest.clone();
                let r1 = |n: &Nat| vals[2].mul(&pw(&vals[0], &e, n)).rem(n);
                let r2 = |n: &Nat| vals[3].mul(&pw(&vals[1], &e, n)).rem(n);
                // t^v s^{-N0 e} = T Q^{-z1}
                let r3 = |n: &Nat| vals[4].mul(&pw(&vals[1], &z1.neg(), n)).rem(n);
                p["w1"] = signed_json(&f(&z1, &signed_of(&honest["w1"]), &r1), 1);
                p["w2"] = signed_json(&f(&z2, &signed_of(&honest["w2"]), &r2), 1);
                p["v"] = signed_json(&f(&int(n0).mul(&e).neg(), &signed_of(&honest["v"]), &r3), 1);
                add(item, with("setup", setup), p);
            }
        }
        Kind::Prm => {
            let (sec, j) = w.rp.as_ref().unwrap();
            let phi: Nat = {
                let t = sec.totient_nonzero();
                bn(&**t.expose_secret())
            };
            let (n, t, s) = (num(&j["modulus"]), num(&j["base_randomizer"]), num(&j["base_value"]));
            let bits = bits_of(&honest["challenge"]);
            // commitments (one repetition)
            let i = sd.next_u32() as usize % bits.len();
            let mut p = honest.clone();
            p["commitment"][i] = uint_json::<S>(&bump(&num(&p["commitment"][i]), &t, &n));
            p["proof"][i] = uint_json::<S>(&num(&p["proof"][i]).add(&Nat::one()).rem(&phi));
            add("commitment", pubs.clone(), p);
            // s
            let d = Nat::random_below(&mut sd, &phi);
            let mut p = honest.clone();
            for (i, b) in bits.iter().enumerate() {
                if *b {
                    p["proof"][i] = uint_json::<S>(&num(&p["proof"][i]).add(&d).rem(&phi));
                }
            }
            add("setup: base value", with("setup", rp_json::<S>(&n, &t, &s.mul(&t.powmod(&d, &n)).rem(&n))), p);
            // t
            let k = coprime(&mut sd, &phi);
            let ik = k.invmod(&phi).unwrap();
            let mut p = honest.clone();
            for i in 0..bits.len() {
                p["proof"][i] = uint_json::<S>(&num(&p["proof"][i]).mul(&ik).rem(&phi));
            }
            add("setup: base randomizer", with("setup", rp_json::<S>(&n, &t.powmod(&k, &n), &s)), p);
            // N: a prime of the same size, above every number that has to be reduced
            let top = (0..bits.len()).map(|i| num(&honest["commitment"][i])).chain([t.clone(), s.clone()]).max().unwrap();
            if let Some((pr, fs)) = (0..40).map(|_| smooth_prime(&mut sd, n.bits(), &t)).find(|(pr, _)| *pr > top) {
                let mut p = honest.clone();
                for (i, b) in bits.iter().enumerate() {
                    let a = num(&honest["commitment"][i]);
                    let v = if *b { a.mul(&s).rem(&pr) } else { a };
                    p["proof"][i] = uint_json::<S>(&dlog_smooth(&t, &v, &pr, &fs));
                }
                add("setup: modulus", with("setup", rp_json::<S>(&pr, &t, &s)), p);
            }
        }
        Kind::Mod => {
            let n = n0;
            // w, hidden in the fourth roots
            let u = unit_below(&mut sd, n);
            let mut p = honest.clone();
            p["commitment"] = uint_json::<S>(&num(&p["commitment"]).mul(&u.powmod(&Nat::from(4), n)).rem(n));
            for el in p["proof"].as_array_mut().unwrap() {
                if el["b"].as_bool().unwrap() {
                    el["x"] = uint_json::<S>(&num(&el["x"]).mul(&u).rem(n));
                }
            }
            add("commitment", pubs.clone(), p);
            // another N: the next Blum modulus, same challenge values
            let wv = num(&honest["commitment"]);
            let blum = |mut p: Nat| loop {
                if p.rem(&Nat::from(4)) == Nat::from(3) && p.is_prime() {
                    break p;
                }
                p = p.add(&Nat::one());
            };
            for _ in 0..4 {
                let p1 = blum(Nat::random_bits(&mut sd, n.bits() / 2 - 2).add(&Nat::from(3).shl(n.bits() / 2 - 2)));
                let q1 = blum(n.divrem(&p1).0.add(&Nat::one()));
                let k = PKey::<S>::of(p1.clone(), q1.clone());
                if wv.jacobi(&k.n) != -1 || k.n.gcd(&k.phi) != Nat::one() || k.n <= *n || k.n.bits() != n.bits() {
                    continue;
                }
                let mut p = honest.clone();
                let mut ok = true;
                for i in 0..S::SECURITY_BITS {
                    let y = num(&p["challenge"][i]);
                    let Some((x, a, b)) = root_with(&y, &wv, &k.n, &p1, &q1) else {
                        ok = false;
                        break;
                    };
                    p["proof"][i] = serde_json::json!({"x": uint_json::<S>(&x), "a": a, "b": b, "z": uint_json::<S>(&y.powmod(&k.n.invmod(&k.phi).unwrap(), &k.n))});
                }
                if ok {
                    add("pk0", with("pk0", k.wire()), p);
                    break;
                }
            }
        }
    }
    out
}

/// x with x^4 = (-1)^a w^b y
fn root_with(y: &Nat, w: &Nat, n: &Nat, p: &Nat, q: &Nat) -> Option<(Nat, bool, bool)> {
    for (a, b) in [(false, false), (false, true), (true, false), (true, true)] {
        let mut v = y.rem(n);
        if a {
            v = n.sub(&v);
        }
        if b {
            v = v.mulmod(w, n);
        }
        if let (Some(r), Some(s)) = (root4_p(&v.rem(p), p), root4_p(&v.rem(q), q)) {
            return Some((crt(&[(r, p.clone()), (s, q.clone())]), a, b));
        }
    }
    None
}

/// A key with known factors, of a modulus just above n.
fn bigger_key(rng: &mut Rng, n: &Nat) -> PKey<S> {
    loop {
        let k = PKey::<S>::small(rng, n.bits() / 2 + 2);
        if k.n > *n {
            return k;
        }
    }
}

/// Other setups together with the rule for adapting the exponent z of t in an equation s^a t^z = rhs.
type Adapt<'a> = std::boxed::Box<dyn Fn(&Int, &Int, &dyn Fn(&Nat) -> Nat) -> Int + 'a>;
fn setups<'a>(st: &'a Setup, rng: &mut Rng, vals: &[&Nat]) -> Vec<(&'static str, J, Adapt<'a>)> {
    let mut out: Vec<(&'static str, J, Adapt<'a>)> = vec![];
    let d = Nat::random_below(rng, &st.phi).add(&Nat::one());
    let s2 = st.s.mul(&st.t.powmod(&d, &st.n)).rem(&st.n);
    let di = Int::from(d);
    if s2 != st.s {
        out.push(("setup: base value", rp_json::<S>(&st.n, &st.t, &s2), std::boxed::Box::new(move |a, z, _| z.sub(&di.mul(a)))));
    }
    let k = coprime(rng, &st.phi);
    let ik = k.invmod(&st.phi).unwrap();
    let t2 = st.t.powmod(&k, &st.n);
    if t2 != st.t {
        out.push((
            "setup: base randomizer",
            rp_json::<S>(&st.n, &t2, &st.s),
            std::boxed::Box::new(move |_, z, _| Int::from(z.modulo(&st.phi).mul(&ik).rem(&st.phi))),
        ));
    }
    let _ = vals;
    let (p, fs) = smooth_prime(rng, st.n.bits() + 1, &st.t);
    out.push((
        "setup: modulus",
        rp_json::<S>(&p, &st.t, &st.s),
        std::boxed::Box::new(move |a, _, rhs| {
            // t^z = rhs s^-a mod p
            let v = rhs(&p).mul(&pw(&st.s, &a.neg(), &p)).rem(&p);
            Int::from(dlog_smooth(&st.t, &v, &p, &fs))
        }),
    ));
    out
}

fn run_probes(c: &Ctx, kind: Kind, idx: u64, real: &World<S>) {
    let rng = &mut rng_for(&format!("c13/{}", kind.name()), idx);
    let mut w;
    let w = match kind {
        Kind::Mod | Kind::Prm => real,
        _ => {
            w = World::<S>::small(rng, 14, 15, 13);
            if kind == Kind::Fac {
                let r = World::<S>::new(rng, false);
                w.k0 = r.k0;
                w.k1 = r.k1;
            }
            &w
        }
    };
    let case = Case::<S>::new(w, kind, rng, 8, 8, ALL, 3);
    let aux = Aux::random(rng);
    for p in probes(&case, &aux, rng) {
        let what = format!("{}: {}", kind.name(), p.item);
        if let Some(eq) = equations::<S>(kind, &w.curve, &p.pubs, &p.proof) {
            // chance (a response leaving its range): nothing learned
            c.count("probe discarded: an equation or range does not hold");
            c.note(format!("{}: discarded by {}", what, eq));
            continue;
        }
        c.count(&what);
        c.distinct(format!("{}{}", what, idx).as_bytes());
        let v = verify::<S>(kind, &p.pubs, &p.proof, &aux);
        c.sample(&what, format!("all equations hold for the changed {}; verdict {:?}", p.item, v));
        match v {
            Verdict::Accept => c.violation(
                &what,
                "a proof verifies although a value it should be bound to was replaced",
                format!("{} | publics {} | proof {} | aux={:?}", what, short(&serde_json::to_string(&p.pubs).unwrap(), 1500), short(&p.proof.to_string(), 1500), aux),
            ),
            Verdict::Reject => c.count("only the challenge differed: rejected"),
            Verdict::NoDecode(e) => c.note(format!("{}: does not decode: {}", what, e)),
            Verdict::Panic(e) => c.note(format!("{}: panic (see C14): {}", what, e)),
        }
    }
}

/// Other contexts of the same shape.
fn other_aux(a: &Aux, rng: &mut Rng) -> Vec<(&'static str, Aux)> {
    let mut out = vec![];
    let flip = |v: &Vec<u8>, rng: &mut Rng| {
        let mut v = v.clone();
        if v.is_empty() {
            v.push(0);
        } else {
            let i = rng.next_u32() as usize % v.len();
            v[i] ^= 1 << (rng.next_u32() % 8);
        }
        v
    };
    let cat = |x: &Vec<u8>, y: &Vec<u8>| [&x[..], &y[..]].concat();
    match a {
        Aux::Sess(s, i) => {
            out.push(("other party", Aux::Sess(s.clone(), i ^ (1 << (rng.next_u32() % 32)))));
            out.push(("next party", Aux::Sess(s.clone(), i.wrapping_add(1))));
            out.push(("other session", Aux::Sess(flip(s, rng), *i)));
            let mut s2 = s.clone();
            s2.reverse();
            out.push(("session reversed", Aux::Sess(s2, *i)));
            out.push(("session truncated", Aux::Sess(s[..s.len() - 1].to_vec(), *i)));
            out.push(("session extended", Aux::Sess(cat(s, &vec![0]), *i)));
            out.push(("empty session", Aux::Sess(vec![], *i)));
        }
        Aux::Two(x, y) => {
            out.push(("first changed", Aux::Two(flip(x, rng), y.clone())));
            out.push(("second changed", Aux::Two(x.clone(), flip(y, rng))));
            out.push(("exchanged", Aux::Two(y.clone(), x.clone())));
            let all = cat(x, y);
            for k in 0..=all.len().min(12) {
                out.push(("same bytes divided differently", Aux::Two(all[..k].to_vec(), all[k..].to_vec())));
            }
            out.push(("joined", Aux::Two(all, vec![])));
        }
        Aux::Three(x, y, z) => {
            out.push(("third changed", Aux::Three(x.clone(), y.clone(), z ^ 1)));
            out.push(("exchanged", Aux::Three(y.clone(), x.clone(), *z)));
        }
        Aux::One(x) => {
            out.push(("changed", Aux::One(flip(x, rng))));
            out.push(("zero appended", Aux::One(cat(x, &vec![0]))));
            out.push(("zero prepended", Aux::One(cat(&vec![0], x))));
        }
        Aux::Num(n) => {
            out.push(("one bit", Aux::Num(n ^ (1 << (rng.next_u32() % 64)))));
            out.push(("bytes reversed", Aux::Num(n.swap_bytes())));
        }
        Aux::Unit => {}
        Aux::Nested(v) => {
            let all: Vec<u8> = v.concat();
            out.push(("joined", Aux::Nested(vec![all.clone()])));
            out.push(("an empty part added", Aux::Nested([&v[..], &[vec![]]].concat())));
            out.push(("an empty part added in front", Aux::Nested([&[vec![]], &v[..]].concat())));
            for k in 0..=all.len().min(8) {
                out.push(("same bytes divided differently", Aux::Nested(vec![all[..k].to_vec(), all[k..].to_vec()])));
            }
            out.push(("none", Aux::Nested(vec![])));
        }
        Aux::Opt(o) => {
            out.push(("none/some", Aux::Opt(if o.is_some() { None } else { Some(0) })));
            out.push(("other", Aux::Opt(Some(o.unwrap_or(0) ^ 1))));
        }
    }
    out.retain(|(_, x)| x != a);
    out
}

fn contexts(c: &Ctx, w: &World<S>, kind: Kind, idx: u64) {
    let rng = &mut rng_for(&format!("c13/aux/{}", kind.name()), idx);
    let case = Case::<S>::new(w, kind, rng, 8, 8, ALL, 3);
    let aux = match idx % 4 {
        0 => Aux::sess(rng),
        1 => {
            let mut v = vec![0u8; 24];
            rng.fill_bytes(&mut v);
            let k = rng.next_u32() as usize % 25;
            Aux::Two(v[..k].to_vec(), v[k..].to_vec())
        }
        _ => Aux::random(rng),
    };
    let Ok(p) = case.prove(rng, &aux) else { return };
    if verify::<S>(kind, &case.pubs, &p, &aux) != Verdict::Accept {
        c.count("control: true statement NOT accepted (see C10)");
        return;
    }
    let mut check = |what: String, pubs: &Pubs, aux2: &Aux, how: &str| {
        c.count(&what);
        c.distinct(format!("{}{}{}", what, how, idx).as_bytes());
        if verify::<S>(kind, pubs, &p, aux2) == Verdict::Accept {
            c.violation(&what, "a proof verifies in a different context", format!("{} | proved with {:?}, verified with {:?} | {}", how, aux, aux2, case.describe()));
        }
    };
    for (how, a2) in other_aux(&aux, rng) {
        check(format!("{}: context", kind.name()), &case.pubs, &a2, how);
    }
    // inputs of the same type exchanged, setup parts exchanged
    let keys: Vec<&'static str> = case.pubs.keys().copied().collect();
    for (i, a) in keys.iter().enumerate() {
        for b in &keys[..i] {
            let (va, vb) = (&case.pubs[a], &case.pubs[b]);
            let same_shape = match (va, vb) {
                (J::String(x), J::String(y)) => x.len() == y.len(),
                (J::Object(x), J::Object(y)) => x.keys().eq(y.keys()),
                _ => false,
            };
            if same_shape && va != vb {
                let mut pubs = case.pubs.clone();
                pubs.insert(a, vb.clone());
                pubs.insert(b, va.clone());
                check(format!("{}: inputs exchanged", kind.name()), &pubs, &aux, &format!("{} and {}", a, b));
            }
        }
    }
    if let Some(J::Object(s)) = case.pubs.get("setup") {
        let mut s2 = s.clone();
        let (t, s_) = (s["base_randomizer"].clone(), s["base_value"].clone());
        s2.insert("base_randomizer".to_string(), s_);
        s2.insert("base_value".to_string(), t);
        let mut pubs = case.pubs.clone();
        pubs.insert("setup", J::Object(s2));
        check(format!("{}: setup bases exchanged", kind.name()), &pubs, &aux, "");
        let mut pubs = case.pubs.clone();
        pubs.insert("setup", Setup::random(rng, 60).json::<S>());
        check(format!("{}: other setup", kind.name()), &pubs, &aux, "");
    }
    let _: String = String::new();
}

pub fn main() -> i32 {
    let c = Ctx::new("C13");
    let rng = &mut rng_for("c13/world", 0);
    let ws: Vec<World<S>> = (0..scale(4, 16)).map(|_| World::new(rng, true)).collect();
    let ws = &*ws.leak();
    let nw = ws.len() as u64;
    type Job<'a> = std::boxed::Box<dyn Fn() + Sync + Send + 'a>;
    let mut jobs: Vec<Job> = vec![];
    let c = &c;
    for kind in KINDS {
        let slow = matches!(kind, Kind::Dec | Kind::AffStar | Kind::Mod | Kind::Prm);
        for i in 0..if slow { scale(10, 200) } else { scale(24, 800) } {
            jobs.push(std::boxed::Box::new(move || run_probes(c, kind, i, &ws[(i % nw) as usize])));
        }
        for i in 0..if slow { scale(16, 300) } else { scale(32, 800) } {
            jobs.push(std::boxed::Box::new(move || contexts(c, &ws[(i % nw) as usize], kind, i)));
        }
    }
    let rng = &mut rng_for("c13/order", 0);
    for i in (1..jobs.len()).rev() {
        jobs.swap(i, rng.next_u64() as usize % (i + 1));
    }
    let jobs = &jobs;
    c.par(jobs.len() as u64, |j| jobs[j as usize]());
    c.finish(
        "an evaluation is one verification of a proof with exactly one bound value replaced (probes: every equation and range re-checked by the harness's own arithmetic first); distinct = (proof type, value, case)",
        &["A probe counts only if the harness's own evaluation of all equations and ranges accepts it, so that only the challenge can reject it.",
          "The number of parties given to the dec verifier only widens a range and is not part of the bound values.",
          "Contexts are compared within one shape (type) of context value."],
    )
}
