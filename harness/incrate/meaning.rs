// What a changed message means: differences which only concern the encoding are left out.
use std::collections::BTreeMap;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::session::*;
use super::util::*;
use serde_json::{json, Value as J};

/// The fields of a message which its sender proves something about or has committed to:
/// a receiver who has what it needs to check them never accepts others in their place.
/// The broadcasts behind the first-round commitments, shares of masked values which later rounds check, and key resharing
/// (whose subshares are only checked against what the sender says itself) are not listed.
pub fn fixed_fields(protocol: &str, round: u8, part: Part) -> &'static [&'static str] {
    use Part::*;
    match (protocol, round, part) {
        ("KeyInit", 2, Eb) => &["rho"],
        ("KeyInit", 2, Nb) => &["cap_x", "cap_a", "u"],
        ("KeyInit", 3, Nb) => &["psi"],
        ("AuxGen", 2, Eb) => &["rid", "rp_params"],
        ("AuxGen", 2, Nb) => &["paillier_pk", "psi", "u"],
        ("AuxGen", 3, Nb) => &["psi_prime"],
        ("AuxGen", 3, Dm) => &["psi"],
        ("KeyRefresh", 2, Eb) => &["rid", "rp_params", "cap_ys"],
        ("KeyRefresh", 2, Nb) => &["cap_xs", "cap_as", "paillier_pk", "psi", "u"],
        ("KeyRefresh", 3, Eb) => &["hat_psis"],
        ("KeyRefresh", 3, Nb) => &["psi_prime"],
        ("KeyRefresh", 3, Dm) => &["psi", "cap_c"],
        ("InteractiveSigning", 1, Eb) => &["cap_k", "cap_g", "cap_y", "cap_a1", "cap_a2", "cap_b1", "cap_b2"],
        ("InteractiveSigning", 1, Dm) => &["psi0", "psi1"],
        ("InteractiveSigning", 2, Eb) => &["cap_gamma", "cap_fs", "hat_cap_fs"],
        ("InteractiveSigning", 2, Nb) => &["cap_ds", "hat_cap_ds", "psi_elog", "psis", "hat_psis"],
        ("InteractiveSigning", 3, Nb) => &["cap_delta", "psi_prime"],
        ("InteractiveSigning", 4, Nb) => &["sigma"],
        ("InteractiveSigning", 5, Eb) => &["psi_star", "psis"],
        ("InteractiveSigning", 6, Eb) => &["hat_psi_star", "hat_psis"],
        _ => &[],
    }
}

/// `new` as seen next to `old`: keys which `old` does not have, declared bounds, the order of maps, and unused bits are left out.
fn meaning(old: &J, new: &J) -> J {
    match (old, new) {
        (J::Object(o), J::Object(_)) if o.contains_key("bits") && o.contains_key("byte_vec") => {
            match from_json::<crate::tools::bitvec::BitVec>(new) {
                Ok(b) => json!(b.bits()),
                Err(_) => new.clone(),
            }
        }
        (J::Object(o), J::Object(n)) => J::Object(
            n.iter().filter(|(k, _)| k.as_str() != "bound").filter_map(|(k, v)| Some((k.clone(), meaning(o.get(k)?, v)))).collect(),
        ),
        (J::Array(_), J::Array(n)) => match (as_map(old), as_map(new)) {
            (Some(o), Some(m)) => J::Array(
                m.iter().map(|(k, v)| json!([k, o.get(k).map(|x| meaning(x, v)).unwrap_or(v.clone())])).collect(),
            ),
            _ => {
                let empty = vec![];
                let o = old.as_array().unwrap_or(&empty);
                J::Array(n.iter().enumerate().map(|(i, v)| o.get(i).map(|x| meaning(x, v)).unwrap_or(v.clone())).collect())
            }
        },
        _ => new.clone(),
    }
}
/// A list of pairs starting with different numbers.
fn as_map(j: &J) -> Option<BTreeMap<u64, J>> {
    let a = j.as_array()?;
    let mut m = BTreeMap::new();
    for x in a {
        let p = x.as_array().filter(|p| p.len() == 2)?;
        if m.insert(p[0].as_u64()?, p[1].clone()).is_some() {
            return None;
        }
    }
    if m.is_empty() {
        None
    } else {
        Some(m)
    }
}

/// The field of `part` which has got another meaning, if it is one a receiver must not accept changed.
pub fn altered(protocol: &str, round: u8, part: Part, to: u32, old: &Bytes, new: &Bytes) -> Option<String> {
    let fields = fixed_fields(protocol, round, part);
    if old.is_none() && new.is_some() {
        return Some("unused part".into());
    }
    let old: J = serde_json::from_slice(old.as_ref()?).ok()?;
    if fields.is_empty() {
        return None;
    }
    let new: J = match new.as_ref().and_then(|b| serde_json::from_slice(b).ok()) {
        Some(j) => j,
        None => return Some("a part of it".to_string()),
    };
    for f in fields {
        // a message without it is not one this table knows
        let Some(mut o) = old.get(*f).cloned() else { continue };
        let Some(mut n) = new.get(*f).cloned() else { return Some(f.to_string()) };
        if protocol == "InteractiveSigning" && round >= 5 {
            // what concerns the receiver itself was settled in Round 2
            for x in [&mut o, &mut n] {
                if let Some(a) = x.as_array_mut() {
                    a.retain(|e| e.get(0).and_then(|k| k.as_u64()) != Some(to as u64));
                }
            }
        }
        if meaning(&o, &o) != meaning(&o, &n) {
            return Some(f.to_string());
        }
    }
    None
}
