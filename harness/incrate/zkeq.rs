// The verification equations and ranges of the nine proofs, evaluated with the harness's own arithmetic for the
// challenge the proof carries (that is, everything a verifier checks except that the challenge is the hash).
use std::prelude::rust_2021::*;
use std::vec::Vec;

use super::bigref::*;
use super::ecref::*;
use super::util::*;
use super::zkfix::*;
use super::zkforge::*;
use crate::curve::Scalar;
use crate::paillier::PaillierParams;
use crate::params::SchemeParams;

pub fn sc_of<S: SchemeParams>(j: &J) -> Nat {
    let x: Scalar<S> = from_json(j).unwrap();
    sc(&x)
}
fn sp(j: &J) -> (Nat, Nat, Nat) {
    (num(&j["modulus"]), num(&j["base_randomizer"]), num(&j["base_value"]))
}

/// None: all hold; Some(name): the first that does not.
pub fn equations<S: SchemeParams>(kind: Kind, c: &CurveRef, p: &Pubs, f: &J) -> Option<&'static str> {
    let int = |n: &Nat| Int::from(n.clone());
    let g = |v: &Int| mk_sc::<S>(c, &v.modulo(&c.n)).mul_by_generator();
    let P = |k: &str| pt::<S>(&p[k]);
    let F = |k: &str| pt::<S>(&f[k]);
    let n_of = |k: &str| num(&p[k]["modulus"]);
    let m = |v: &crate::curve::Point<S>, e: &Int| pt_mul::<S>(c, v, e);
    let com = |s: &(Nat, Nat, Nat), a: &Int, b: &Int| pw(&s.2, a, &s.0).mul(&pw(&s.1, b, &s.0)).rem(&s.0);
    let (l, lp, eps) = (S::L_BOUND, S::LP_BOUND, S::EPS_BOUND);
    macro_rules! check {
        ($c:expr, $n:expr) => {
            if !$c {
                return Some($n);
            }
        };
    }
    match kind {
        Kind::Sch => {
            let e = int(&sc_of::<S>(&f["challenge"]));
            check!(g(&int(&sc_of::<S>(&f["proof"]))) == P("commitment") + m(&P("cap_x"), &e), "sch");
        }
        Kind::Elog => {
            let (e, z, u) = (int(&sc_of::<S>(&f["e"])), int(&sc_of::<S>(&f["z"])), int(&sc_of::<S>(&f["u"])));
            check!(g(&z) == F("cap_a") + m(&P("l"), &e), "L");
            check!(g(&u) + m(&P("x"), &z) == F("cap_n") + m(&P("m"), &e), "M");
            check!(m(&P("h"), &u) == F("cap_b") + m(&P("y"), &e), "Y");
        }
        Kind::Enc => {
            let e = int(&sc_of::<S>(&f["e"]));
            let n = n_of("pk0");
            let n2 = n.mul(&n);
            let (z1, z3, w) = (signed_of(&f["z1"]), signed_of(&f["z3"]), int(&sc_of::<S>(&f["w"])));
            check!(z1.in_exp_range(l + eps), "range z1");
            check!(enc_num(&n, &z1, &num(&f["z2"])) == ct_num(&f["cap_d"]).mul(&pw(&ct_num(&p["c"]).rem(&n2), &e, &n2)).rem(&n2), "C");
            check!(m(&P("a"), &w) + g(&z1) == F("cap_y") + m(&P("x"), &e), "X");
            check!(g(&w) == F("cap_z") + m(&P("b"), &e), "B");
            let s = sp(&p["setup"]);
            check!(com(&s, &z1, &z3) == num(&f["cap_t"]).mul(&pw(&num(&f["cap_s"]), &e, &s.0)).rem(&s.0), "S");
        }
        Kind::AffG => {
            let e = int(&sc_of::<S>(&f["e"]));
            let (n, n1) = (n_of("pk0"), n_of("pk1"));
            let (n2, n12) = (n.mul(&n), n1.mul(&n1));
            let (z1, z2, z3, z4) = (signed_of(&f["z1"]), signed_of(&f["z2"]), signed_of(&f["z3"]), signed_of(&f["z4"]));
            check!(z1.in_exp_range(l + eps), "range z1");
            check!(z2.in_exp_range(lp + eps), "range z2");
            let lhs = pw(&ct_num(&p["c"]).rem(&n2), &z1, &n2).mul(&enc_num(&n, &z2, &num(&f["w"]))).rem(&n2);
            check!(lhs == ct_num(&f["cap_a"]).mul(&pw(&ct_num(&p["d"]).rem(&n2), &e, &n2)).rem(&n2), "D");
            check!(g(&z1) == F("cap_b_x") + m(&P("x"), &e), "X");
            check!(enc_num(&n1, &z2, &num(&f["w_y"])) == ct_num(&f["cap_b_y"]).mul(&pw(&ct_num(&p["y"]).rem(&n12), &e.neg(), &n12)).rem(&n12), "Y");
            let s = sp(&p["setup"]);
            check!(com(&s, &z1, &z3) == num(&f["cap_e"]).mul(&pw(&num(&f["cap_s"]), &e, &s.0)).rem(&s.0), "S");
            check!(com(&s, &z2, &z4) == num(&f["cap_f"]).mul(&pw(&num(&f["cap_t"]), &e, &s.0)).rem(&s.0), "T");
        }
        Kind::Dec => {
            let bits = bits_of(&f["e"]);
            let n = n_of("pk0");
            let n2 = n.mul(&n);
            let parties = p["parties"].as_u64().unwrap() as usize;
            let mut lg = 0;
            while (1usize << lg) < parties {
                lg += 1;
            }
            let (cs, es) = (f["commitments"].as_array().unwrap(), f["elements"].as_array().unwrap());
            check!(bits.len() == S::SECURITY_PARAMETER && cs.len() == bits.len() && es.len() == bits.len(), "lengths");
            for ((b, cm), el) in bits.iter().zip(cs).zip(es) {
                let e = Int::small(*b as i64);
                let (z, w) = (signed_of(&el["z"]), signed_of(&el["w"]));
                check!(z.in_exp_range(l + eps), "range z");
                check!(w.in_exp_range(lp + eps + 1 + lg + eps), "range w");
                let lhs = enc_num(&n, &w, &num(&el["nu"])).mul(&pw(&ct_num(&p["k"]).rem(&n2), &z.neg(), &n2)).rem(&n2);
                check!(lhs == ct_num(&cm["cap_a"]).mul(&pw(&ct_num(&p["d"]).rem(&n2), &e, &n2)).rem(&n2), "D");
                check!(g(&z) == pt::<S>(&cm["cap_c"]) + m(&P("x"), &e), "X");
                check!(m(&P("g"), &w) == pt::<S>(&cm["cap_b"]) + m(&P("s"), &e), "S");
            }
        }
        Kind::AffStar => {
            let bits = bits_of(&f["e"]);
            let (n, n1) = (n_of("pk0"), n_of("pk1"));
            let (n2, n12) = (n.mul(&n), n1.mul(&n1));
            let (cs, es) = (f["commitments"].as_array().unwrap(), f["elements"].as_array().unwrap());
            check!(bits.len() == S::SECURITY_PARAMETER && cs.len() == bits.len() && es.len() == bits.len(), "lengths");
            for ((b, cm), el) in bits.iter().zip(cs).zip(es) {
                let e = Int::small(*b as i64);
                let (z, zp) = (signed_of(&el["z"]), signed_of(&el["z_prime"]));
                check!(z.in_exp_range(l + eps), "range z");
                check!(zp.in_exp_range(lp + eps), "range z_prime");
                let lhs = pw(&ct_num(&p["c"]).rem(&n2), &z, &n2).mul(&enc_num(&n, &zp, &num(&el["w"]))).rem(&n2);
                check!(lhs == ct_num(&cm["cap_a"]).mul(&pw(&ct_num(&p["d"]).rem(&n2), &e, &n2)).rem(&n2), "D");
                check!(g(&z) == pt::<S>(&cm["cap_r"]) + m(&P("x"), &e), "X");
                check!(enc_num(&n1, &zp, &num(&el["lambda"])) == ct_num(&cm["cap_b"]).mul(&pw(&ct_num(&p["y"]).rem(&n12), &e.neg(), &n12)).rem(&n12), "Y");
            }
        }
        Kind::Fac => {
            let e = signed_of(&f["e"]);
            let s = sp(&p["setup"]);
            let b = l + eps + Pp::<S>::PRIME_BITS - 2;
            let (z1, z2) = (signed_of(&f["z1"]), signed_of(&f["z2"]));
            check!(z1.in_exp_range(b) && z2.in_exp_range(b), "range");
            check!(com(&s, &z1, &signed_of(&f["w1"])) == num(&f["cap_a"]).mul(&pw(&num(&f["cap_p"]), &e, &s.0)).rem(&s.0), "P");
            check!(com(&s, &z2, &signed_of(&f["w2"])) == num(&f["cap_b"]).mul(&pw(&num(&f["cap_q"]), &e, &s.0)).rem(&s.0), "Q");
            let lhs = pw(&num(&f["cap_q"]), &z1, &s.0).mul(&pw(&s.1, &signed_of(&f["v"]), &s.0)).rem(&s.0);
            check!(lhs == num(&f["cap_t"]).mul(&pw(&s.2, &e.mul(&int(&n_of("pk0"))), &s.0)).rem(&s.0), "R");
        }
        Kind::Prm => {
            let s = sp(&p["setup"]);
            let bits = bits_of(&f["challenge"]);
            let (cs, zs) = (f["commitment"].as_array().unwrap(), f["proof"].as_array().unwrap());
            check!(bits.len() == S::SECURITY_BITS && cs.len() == bits.len() && zs.len() == bits.len(), "lengths");
            for ((b, a), z) in bits.iter().zip(cs).zip(zs) {
                let rhs = if *b { num(a).mul(&s.2).rem(&s.0) } else { num(a).rem(&s.0) };
                check!(s.1.powmod(&num(z), &s.0) == rhs, "prm");
            }
        }
        Kind::Mod => {
            let n = n_of("pk0");
            let w = num(&f["commitment"]);
            let (ys, es): (&Vec<J>, &Vec<J>) = (f["challenge"].as_array().unwrap(), f["proof"].as_array().unwrap());
            check!(ys.len() == S::SECURITY_BITS && es.len() == ys.len(), "lengths");
            check!(w.gcd(&n) == Nat::one() && !n.is_prime(), "N, w");
            for (y, el) in ys.iter().zip(es) {
                let y = num(y);
                check!(num(&el["z"]).powmod(&n, &n) == y.rem(&n), "z");
                let mut v = y.rem(&n);
                if el["a"].as_bool().unwrap() {
                    v = n.sub(&v).rem(&n);
                }
                if el["b"].as_bool().unwrap() {
                    v = v.mulmod(&w, &n);
                }
                check!(num(&el["x"]).powmod(&Nat::from(4), &n) == v, "x");
            }
        }
    }
    None
}
