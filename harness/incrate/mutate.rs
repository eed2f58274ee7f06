// Mutations of serialized messages which know nothing about the protocols: every node of the JSON form is reachable.
use std::collections::BTreeMap;
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::common::*;
use rand_core::RngCore;
use serde_json::{json, Value as J};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Step {
    Key(String),
    Idx(usize),
}
pub type Path = Vec<Step>;

/// The path with list positions left out.
pub fn pattern(p: &Path) -> String {
    p.iter().fold(String::new(), |s, x| match x {
        Step::Key(k) => format!("{}.{}", s, k),
        Step::Idx(_) => format!("{}[]", s),
    })
}
pub fn get<'a>(j: &'a J, p: &[Step]) -> Option<&'a J> {
    p.iter().try_fold(j, |j, s| match s {
        Step::Key(k) => j.get(k),
        Step::Idx(i) => j.get(*i),
    })
}
pub fn set(j: &mut J, p: &[Step], v: J) {
    let mut at = j;
    for s in p {
        at = match s {
            Step::Key(k) => at.get_mut(k).unwrap(),
            Step::Idx(i) => at.get_mut(*i).unwrap(),
        };
    }
    *at = v;
}
fn walk(j: &J, here: &mut Path, out: &mut BTreeMap<String, Vec<Path>>) {
    out.entry(pattern(here)).or_default().push(here.clone());
    match j {
        J::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                here.push(Step::Idx(i));
                walk(x, here, out);
                here.pop();
            }
        }
        J::Object(o) => {
            for (k, x) in o {
                here.push(Step::Key(k.clone()));
                walk(x, here, out);
                here.pop();
            }
        }
        _ => {}
    }
}
/// All nodes by pattern.
pub fn nodes(j: &J) -> BTreeMap<String, Vec<Path>> {
    let mut out = BTreeMap::new();
    walk(j, &mut vec![], &mut out);
    out
}

fn hex(s: &str) -> Option<Vec<u8>> {
    let h = s.strip_prefix("0x")?;
    if h.len() % 2 != 0 {
        return None;
    }
    (0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).ok()).collect()
}
fn unhex_str(b: &[u8]) -> J {
    J::String(format!("0x{}", hexs(b)))
}

const HEX_OPS: [&str; 20] = [
    "zero", "one le", "one be", "all ff", "flip a bit", "random", "even le", "even be", "flip the sign byte", "top byte zero", "low byte zero", "halved", "minus one le",
    "minus one be", "shorter", "longer", "empty", "not hex", "small le", "small be",
];
const NUM_OPS: [&str; 9] = ["zero", "one", "plus one", "minus one", "doubled", "u32 max", "u64 max", "negative", "random"];
const STR_OPS: [&str; 5] = ["empty", "drop a character", "change a character", "doubled", "random"];
const ARR_OPS: [&str; 10] = ["empty", "drop first", "drop last", "drop one", "duplicate one", "swap two", "add a copy", "reverse", "many", "all the same"];
const ANY_OPS: [&str; 8] = ["null", "number", "text", "list", "object", "true", "same place elsewhere", "same shape elsewhere"];

fn same_shape(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::String(x), J::String(y)) => x.len() == y.len(),
        (J::Number(_), J::Number(_)) | (J::Bool(_), J::Bool(_)) | (J::Null, J::Null) => true,
        (J::Array(x), J::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same_shape(a, b)),
        (J::Object(x), J::Object(y)) => x.len() == y.len() && x.iter().zip(y).all(|((k, a), (l, b))| k == l && same_shape(a, b)),
        _ => false,
    }
}

fn leaf(rng: &mut Rng, v: &J, op: &str) -> Option<J> {
    let below = |rng: &mut Rng, n: usize| if n == 0 { 0 } else { rng.next_u32() as usize % n };
    match v {
        J::String(s) => {
            if let Some(mut b) = hex(s) {
                let n = b.len();
                if n == 0 {
                    return None;
                }
                match op {
                    "zero" => b.fill(0),
                    "one le" => {
                        b.fill(0);
                        b[0] = 1;
                    }
                    "one be" => {
                        b.fill(0);
                        b[n - 1] = 1;
                    }
                    "all ff" => b.fill(0xff),
                    "flip a bit" => b[below(rng, n)] ^= 1 << (rng.next_u32() % 8),
                    "random" => rng.fill_bytes(&mut b),
                    "even le" => b[0] &= 0xfe,
                    "even be" => b[n - 1] &= 0xfe,
                    "flip the sign byte" => b[0] ^= 1,
                    "top byte zero" => b[0] = 0,
                    "low byte zero" => b[n - 1] = 0,
                    "halved" => b[..n / 2].fill(0),
                    "minus one le" => b[0] = b[0].wrapping_sub(1),
                    "minus one be" => b[n - 1] = b[n - 1].wrapping_sub(1),
                    "shorter" => {
                        b.pop();
                    }
                    "longer" => b.push(below(rng, 2) as u8),
                    "empty" => b.clear(),
                    "not hex" => return Some(J::String("0xzz".into())),
                    "small le" => {
                        b.fill(0);
                        b[0] = rng.next_u32() as u8;
                        b[n / 4] = rng.next_u32() as u8 | 1;
                    }
                    "small be" => {
                        b.fill(0);
                        b[n - 1] = rng.next_u32() as u8 | 1;
                        b[n - 1 - n / 4] = rng.next_u32() as u8 | 1;
                    }
                    _ => return None,
                }
                return Some(unhex_str(&b));
            }
            let mut c: Vec<char> = s.chars().collect();
            let at = below(rng, c.len());
            match op {
                "empty" => c.clear(),
                "drop a character" if !c.is_empty() => {
                    c.remove(at);
                }
                "change a character" if !c.is_empty() => c[at] = char::from(b'A' + (rng.next_u32() % 26) as u8),
                "doubled" => {
                    let d = c.clone();
                    c.extend(d);
                }
                "random" => c.iter_mut().for_each(|x| *x = char::from(b'A' + (rng.next_u32() % 26) as u8)),
                _ => return None,
            }
            Some(J::String(c.into_iter().collect()))
        }
        J::Number(x) => {
            let x = x.as_u64().unwrap_or(0);
            Some(match op {
                "zero" => json!(0),
                "one" => json!(1),
                "plus one" => json!(x.wrapping_add(1)),
                "minus one" => json!(x.wrapping_sub(1)),
                "doubled" => json!(x.wrapping_mul(2)),
                "u32 max" => json!(u32::MAX),
                "u64 max" => json!(u64::MAX),
                "negative" => json!(-1),
                "random" => json!(rng.next_u64() >> (rng.next_u32() % 64)),
                _ => return None,
            })
        }
        J::Bool(b) => Some(J::Bool(!b)),
        _ => None,
    }
}
fn array(rng: &mut Rng, a: &[J], op: &str) -> Option<J> {
    let mut a = a.to_vec();
    if a.is_empty() {
        return if op == "many" { Some(json!([[0, 0], [1, 1]])) } else { None };
    }
    let (x, y) = (rng.next_u32() as usize % a.len(), rng.next_u32() as usize % a.len());
    match op {
        "empty" => a.clear(),
        "drop first" => {
            a.remove(0);
        }
        "drop last" => {
            a.pop();
        }
        "drop one" => {
            a.remove(x);
        }
        "duplicate one" => a[x] = a[y].clone(),
        "swap two" => a.swap(x, y),
        "add a copy" => a.push(a[x].clone()),
        "reverse" => a.reverse(),
        "many" => {
            for _ in 0..300 {
                a.push(a[x].clone())
            }
        }
        "all the same" => {
            let v = a[x].clone();
            a.iter_mut().for_each(|z| *z = v.clone());
        }
        _ => return None,
    }
    Some(J::Array(a))
}

#[derive(Clone, Debug)]
pub struct Mutant {
    pub pattern: String,
    pub op: String,
    pub doc: J,
}
/// One random change of `doc`; `others` are documents to take values from.
pub fn mutate(rng: &mut Rng, doc: &J, tree: &BTreeMap<String, Vec<Path>>, others: &[J]) -> Option<Mutant> {
    let pats: Vec<&String> = tree.keys().collect();
    let pat = pats[rng.next_u32() as usize % pats.len()];
    let paths = &tree[pat];
    let at = &paths[rng.next_u32() as usize % paths.len()];
    let v = get(doc, at)?;
    let special: &[&str] = match v {
        J::String(s) if s.starts_with("0x") => &HEX_OPS,
        J::String(_) => &STR_OPS,
        J::Number(_) => &NUM_OPS,
        J::Array(_) => &ARR_OPS,
        J::Bool(_) => &["negated"],
        _ => &[],
    };
    let any = special.is_empty() || rng.next_u32() % 4 == 0;
    let op = if any { ANY_OPS[(rng.next_u32() as usize).max(1) % 16 % 8] } else { special[rng.next_u32() as usize % special.len()] };
    // wrong types are cheap to notice: prefer foreign values
    let op = if any && rng.next_u32() % 3 > 0 { ANY_OPS[6 + (rng.next_u32() % 2) as usize] } else { op };
    let new = match op {
        "null" => J::Null,
        "number" => json!(7),
        "text" => json!("0x01"),
        "list" => json!([]),
        "object" => json!({}),
        "true" => json!(true),
        "same place elsewhere" => {
            let same: Vec<&J> = others.iter().chain([doc]).filter_map(|o| get(o, at)).filter(|x| *x != v).collect();
            let mut more: Vec<&J> = paths.iter().filter_map(|p| get(doc, p)).filter(|x| *x != v).collect();
            more.extend(same);
            if more.is_empty() {
                return None;
            }
            more[rng.next_u32() as usize % more.len()].clone()
        }
        "same shape elsewhere" => {
            let mut found: Vec<J> = vec![];
            for o in others.iter().chain([doc]) {
                for p in nodes(o).into_values() {
                    // one per pattern
                    let q = &p[rng.next_u32() as usize % p.len()];
                    if let Some(x) = get(o, q) {
                        if same_shape(x, v) && x != v {
                            found.push(x.clone());
                        }
                    }
                }
            }
            if found.is_empty() {
                return None;
            }
            found.swap_remove(rng.next_u32() as usize % found.len())
        }
        op => match v {
            J::Array(a) => array(rng, a, op)?,
            _ => leaf(rng, v, op)?,
        },
    };
    if &new == v {
        return None;
    }
    let mut doc = doc.clone();
    set(&mut doc, at, new);
    Some(Mutant { pattern: pat.clone(), op: op.to_string(), doc })
}

/// Every map keyed by party IDs (a list of pairs) with other keys or values: nothing is left to chance here.
pub fn surgeries(doc: &J) -> Vec<Mutant> {
    let mut out = vec![];
    for (pat, paths) in nodes(doc) {
        for at in paths {
            let Some(J::Array(a)) = get(doc, &at) else { continue };
            if a.is_empty() || !a.iter().all(|x| x.as_array().is_some_and(|p| p.len() == 2 && p[0].is_number())) {
                continue;
            }
            let keys: Vec<u64> = a.iter().filter_map(|x| x[0].as_u64()).collect();
            let fresh = (1..).find(|x| !keys.contains(x)).unwrap();
            let high = (1..=u32::MAX as u64).rev().find(|x| !keys.contains(x)).unwrap();
            let last = a.len() - 1;
            let mut put = |op: &str, f: &dyn Fn(&mut Vec<J>)| {
                let mut b = a.clone();
                f(&mut b);
                let mut d = doc.clone();
                set(&mut d, &at, J::Array(b));
                if d != *doc {
                    out.push(Mutant { pattern: pat.clone(), op: op.into(), doc: d });
                }
            };
            put("first renamed", &|b| b[0][0] = json!(fresh));
            put("last renamed", &|b| b[last][0] = json!(high));
            put("all renamed", &|b| b.iter_mut().enumerate().for_each(|(i, x)| x[0] = json!(high - i as u64)));
            put("first lost", &|b| {
                b.remove(0);
            });
            put("last lost", &|b| {
                b.remove(last);
            });
            put("emptied", &|b| b.clear());
            put("one more", &|b| {
                let mut x = b[0].clone();
                x[0] = json!(fresh);
                b.push(x)
            });
            put("values rotated", &|b| {
                let v: Vec<J> = b.iter().map(|x| x[1].clone()).collect();
                for (i, x) in b.iter_mut().enumerate() {
                    x[1] = v[(i + 1) % v.len()].clone();
                }
            });
        }
    }
    out
}
