// Campaigns of deviating parties against the real protocol rounds.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::sync::Mutex;
use std::vec;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::meaning::*;
use super::mutate::*;
use super::rigs::*;
use super::session::*;
use super::zkfix::*;
use manul::protocol::*;
use rand_core::RngCore;
use serde_json::Value as J;

/// Bytes that are not a changed document but something else altogether.
fn raw(rng: &mut Rng, m: &ProtocolMessage, part: Part) -> Option<(String, Bytes)> {
    let now = part_of(m, part);
    let (name, b) = match rng.next_u32() % 6 {
        0 => ("nothing", None),
        1 => ("empty", Some(vec![])),
        2 => {
            let mut v = vec![0u8; 1 + rng.next_u32() as usize % 40];
            rng.fill_bytes(&mut v);
            ("random bytes", Some(v))
        }
        3 => {
            let v = now.clone()?;
            ("cut short", Some(v[..rng.next_u32() as usize % v.len()].to_vec()))
        }
        4 => ("another part", part_of(m, PARTS[rng.next_u32() as usize % 3])),
        _ => ("null", Some(b"null".to_vec())),
    };
    if b == now {
        return None;
    }
    Some((format!("{:?} {}", part, name), b))
}

pub type Docs = BTreeMap<(u8, Part), Vec<J>>;

pub fn docs_of<R: Rig>(out: &Outcome<I, R::P>) -> Docs {
    let mut d: Docs = BTreeMap::new();
    for p in out.parties.values() {
        for ((r, _), m) in &p.log {
            for part in PARTS {
                if let Some(b) = part_of(m, part) {
                    if let Ok(j) = serde_json::from_slice(&b) {
                        d.entry((*r, part)).or_default().push(j);
                    }
                }
            }
        }
    }
    d
}

pub fn change(rng: &mut Rng, round: u8, m: &ProtocolMessage, docs: &Docs) -> Option<(String, Part, Bytes)> {
    let here: Vec<Part> = PARTS.into_iter().filter(|p| part_of(m, *p).is_some()).collect();
    if rng.next_u32() % 24 == 0 || here.is_empty() {
        let part = PARTS[rng.next_u32() as usize % 3];
        let (what, b) = raw(rng, m, part)?;
        return Some((what, part, b));
    }
    let part = here[rng.next_u32() as usize % here.len()];
    let doc: J = serde_json::from_slice(&part_of(m, part)?).ok()?;
    let empty = vec![];
    let all = docs.get(&(round, part)).unwrap_or(&empty);
    // a few documents to take values from
    let some: Vec<J> = (0..3).filter_map(|_| all.get(rng.next_u32() as usize % all.len().max(1)).cloned()).collect();
    let mu = mutate(rng, &doc, &nodes(&doc), &some)?;
    Some((format!("{:?}{} {}", part, mu.pattern, mu.op), part, bytes_of(&mu.doc)))
}

/// The message with one of its maps having other keys or values, or with a part that it did not have.
pub fn maps_changed(m: &ProtocolMessage) -> Vec<(String, Part, Bytes)> {
    let mut out = vec![];
    for part in PARTS {
        let Some(b) = part_of(m, part) else {
            for b in ["", "null", "{}"] {
                out.push((format!("{:?} added", part), part, Some(b.as_bytes().to_vec())));
            }
            continue;
        };
        let Ok(doc) = serde_json::from_slice::<J>(&b) else { continue };
        out.extend(surgeries(&doc).into_iter().map(|x| (format!("{:?}{} {}", part, x.pattern, x.op), part, bytes_of(&x.doc))));
    }
    out
}

/// The message with one of its bit strings having another length.
pub fn lengths_changed(rng: &mut Rng, m: &ProtocolMessage) -> Vec<(String, Part, Bytes)> {
    use crate::tools::bitvec::BitVec;
    fn places(j: &J, at: &str, out: &mut Vec<(String, usize)>) {
        match j {
            J::Object(o) => {
                if let Ok(b) = super::util::from_json::<BitVec>(j) {
                    return out.push((at.into(), b.bits().len()));
                }
                o.iter().for_each(|(k, v)| places(v, &format!("{}/{}", at, k), out))
            }
            J::Array(a) => a.iter().enumerate().for_each(|(k, v)| places(v, &format!("{}/{}", at, k), out)),
            _ => {}
        }
    }
    let mut out = vec![];
    for part in PARTS {
        let Some(doc) = json_of(&part_of(m, part)) else { continue };
        let mut at = vec![];
        places(&doc, "", &mut at);
        for (p, n) in at {
            for l in [0, 1, n.saturating_sub(8), n.saturating_sub(1), n + 1, n + 8, 2 * n] {
                let mut d = doc.clone();
                *d.pointer_mut(&p).unwrap() = super::util::to_json(&BitVec::random(rng, l));
                out.push((format!("{:?}{} of {} bits", part, p, l), part, bytes_of(&d)));
            }
        }
    }
    out
}

#[derive(Clone)]
struct Accepted {
    from: I,
    to: I,
    round: u8,
    part: Part,
    bytes: Bytes,
    name: String,
}

/// A pair of (name, deviation under which everything else happens).
pub type Scene = (&'static str, fn(&mut Rng, &CurveRef, &BTreeMap<(u8, I, I), ProtocolMessage>, &[I]) -> Option<Plan>);

pub fn honest_scene(_: &mut Rng, _: &CurveRef, _: &BTreeMap<(u8, I, I), ProtocolMessage>, _: &[I]) -> Option<Plan> {
    Some(Plan::default())
}
fn edit_field(rng: &mut Rng, c: &CurveRef, msgs: &BTreeMap<(u8, I, I), ProtocolMessage>, who: I, round: u8, part: Part, field: &str, point: bool) -> Option<Bytes> {
    let m = msgs.iter().find(|((r, f, _), _)| *r == round && *f == who)?.1;
    let mut j = json_of(&part_of(m, part))?;
    let k = Nat::random_below(rng, &c.n);
    j[field] = if point { super::util::to_json(&pt_of(c, &k)) } else { sc_json::<T>(c, &k) };
    Some(bytes_of(&j))
}
pub fn pt_of(c: &CurveRef, k: &Nat) -> crate::curve::Point<T> {
    let s: crate::curve::Scalar<T> = super::util::from_json(&sc_json::<T>(c, k)).unwrap();
    s.mul_by_generator()
}
/// One signer's share of a masked value is wrong, and it goes on as if others' were: the error round follows.
pub fn wrong_delta(rng: &mut Rng, c: &CurveRef, msgs: &BTreeMap<(u8, I, I), ProtocolMessage>, ids: &[I]) -> Option<Plan> {
    let b = edit_field(rng, c, msgs, ids[0], 3, Part::Eb, "delta", false)?;
    let fed = edit_field(rng, c, msgs, ids[1], 3, Part::Eb, "delta", false)?;
    let mut p = Plan::default().edit(ids[0], 3, Part::Eb, None, b);
    p.fed.insert((3, ids[0], ids[1]), (Part::Eb, fed));
    Some(p)
}
pub fn wrong_s(rng: &mut Rng, c: &CurveRef, msgs: &BTreeMap<(u8, I, I), ProtocolMessage>, ids: &[I]) -> Option<Plan> {
    let b = edit_field(rng, c, msgs, ids[0], 3, Part::Nb, "cap_s", true)?;
    let fed = edit_field(rng, c, msgs, ids[1], 3, Part::Nb, "cap_s", true)?;
    let mut p = Plan::default().edit(ids[0], 3, Part::Nb, None, b);
    p.fed.insert((3, ids[0], ids[1]), (Part::Nb, fed));
    Some(p)
}

impl<'a> Campaign<'a> {
    /// All attacks of one case.
    pub fn attack<R: Rig>(&self, label: &str, k: u64, n: usize, scene: &Scene) {
        let c = curve_of::<T>();
        let mut rng = rng_for(label, k);
        let rig = R::make(&mut rng, n);
        let seed = rng.next_u64() >> 1;
        let shared = seed.to_le_bytes();
        let base = format!("{} case {} ({})", R::NAME, k, scene.0);
        let honest = attacked(&rig, seed, Order::Random, &Plan::default(), None);
        self.ends(&rig, &c, seed, &honest, &BTreeSet::new(), &|| format!("{}, nobody deviates", base));
        let mut msgs: BTreeMap<(u8, I, I), ProtocolMessage> = BTreeMap::new();
        for (to, p) in &honest.parties {
            for ((r, from), m) in &p.log {
                msgs.insert((*r, *from, *to), m.clone());
            }
        }
        // senders only
        let mut ids: Vec<I> = msgs.keys().map(|x| x.1).collect::<BTreeSet<_>>().into_iter().collect();
        if ids.is_empty() {
            return;
        }
        let r = rng.next_u32() as usize % ids.len();
        ids.rotate_left(r);
        let Some(plan) = (scene.1)(&mut rng, &c, &msgs, &ids) else {
            self.ctx.measure("scenes not set up", 1);
            return;
        };
        let bad = plan.deviators();
        let order = match bad.iter().next() {
            Some(x) => Order::Starve(rig.ids().iter().position(|y| y == x).unwrap()),
            None => Order::Random,
        };
        let docs = Mutex::new(docs_of::<R>(&honest));
        let accepted: Mutex<Vec<Accepted>> = Mutex::new(vec![]);
        let ebs_seen: Mutex<BTreeMap<(u8, I), EchoBroadcast>> = Mutex::new(BTreeMap::new());
        // the echo broadcasts of the session: the same whatever the probe does
        let dry = attacked(&rig, seed, order, &plan, None);
        self.ends(&rig, &c, seed, &dry, &bad, &|| base.clone());
        *ebs_seen.lock().unwrap() = dry.ebs.clone();
        docs.lock().unwrap().extend(docs_of::<R>(&dry));
        let docs = docs.into_inner().unwrap();
        let ebs = ebs_seen.into_inner().unwrap();
        let probe = |p: &Party<I, R::P>, round: u8, from: &I, msg: &ProtocolMessage| {
            if bad.contains(&p.id) {
                return;
            }
            let mut rng = rng_for(&format!("{} {} {} {}", label, round, from, p.id), k);
            let mut seen: BTreeSet<(Part, Bytes)> = BTreeSet::new();
            let sure = maps_changed(msg);
            for i in 0..self.mutants + sure.len() {
                let next = match sure.get(i) {
                    Some(x) => Some(x.clone()),
                    None => change(&mut rng, round, msg, &docs),
                };
                let Some((name, part, bytes)) = next else { continue };
                if part_of(msg, part) == bytes || !seen.insert((part, bytes.clone())) {
                    continue;
                }
                let m = with_part(msg, part, bytes.clone());
                let tag = format!("{} r{} {}", R::NAME, round, name);
                self.ctx.distinct(tag.as_bytes());
                self.ctx.count(&format!("{} changed messages", R::NAME));
                let what = || format!("{}: {} of round {} from {} to {}: {} -> {}", base, name, round, from, p.id, part_text(&part_of(msg, part)), part_text(&bytes));
                let r = {
                    let round = p.round.as_ref().unwrap();
                    no_panic(|| round.0.receive_message(&FORMAT, from, m.clone()).map(|_| ()))
                };
                match r {
                    Err(e) => self.report(Fault::Crash, format!("{}: panic when receiving in round {}: {}", R::NAME, round, cut_digits(&e)), format!("{}; {}", e, what())),
                    Ok(Ok(())) => {
                        self.ctx.measure("changed messages accepted at first", 1);
                        if let Some(f) = altered(R::NAME, round, part, p.id, &part_of(msg, part), &bytes) {
                            self.report(Fault::Blame, format!("{}: a changed {} of round {} is accepted", R::NAME, f, round), what());
                        }
                        accepted.lock().unwrap().push(Accepted { from: *from, to: p.id, round, part, bytes, name });
                    }
                    Ok(Err(e)) => self.refusal(&rig, &shared, p, round, from, &m, &e, &ebs, &what),
                }
            }
        };
        let probed = attacked(&rig, seed, order, &plan, Some(&probe));
        self.ctx.measure("messages delivered", probed.delivered);
        drop(probed);
        // what one receiver accepts goes to all in a full session
        let mut list = accepted.into_inner().unwrap();
        for _ in 0..self.sessions {
            if list.is_empty() {
                break;
            }
            let a = list.swap_remove(rng.next_u32() as usize % list.len());
            let to = if a.part == Part::Dm { Some(a.to) } else { None };
            let p = plan.clone().edit(a.from, a.round, a.part, to, a.bytes.clone());
            let mut b = bad.clone();
            b.insert(a.from);
            let out = attacked(&rig, seed, order, &p, None);
            self.ctx.count(&format!("{} sessions with an accepted change", R::NAME));
            let text = || format!("{}: {} of round {} from {}, accepted at first: {}", base, a.name, a.round, a.from, part_text(&a.bytes));
            self.ends(&rig, &c, seed, &out, &b, &text);
            if a.round == 1 && ["KeyInit", "AuxGen", "KeyRefresh"].contains(&R::NAME) {
                self.ctx.measure("sessions with another first-round commitment", 1);
                for (i, p) in out.parties.iter().filter(|x| !b.contains(x.0)) {
                    if let Some(End::Result(_)) = p.end {
                        self.report(Fault::Blame, format!("{}: a result although a commitment was not kept", R::NAME), format!("{}; {}", i, text()));
                    }
                }
            }
        }
        // commitments made to fit the change
        if bad.is_empty() {
            self.recommitted(&rig, &c, seed, label, k, &msgs, &ids, &docs, &base);
        }
    }

    #[allow(clippy::too_many_arguments)]
    fn recommitted<R: Rig>(&self, rig: &R, c: &CurveRef, seed: u64, label: &str, k: u64, msgs: &BTreeMap<(u8, I, I), ProtocolMessage>, ids: &[I], docs: &Docs, base: &str) {
        let shared = seed.to_le_bytes();
        let m = ids[0];
        let Some((_, first)) = msgs.iter().find(|((r, f, _), _)| *r == 1 && *f == m) else { return };
        let Some((_, second)) = msgs.iter().find(|((r, f, _), _)| *r == 2 && *f == m) else { return };
        let parts = |x: &ProtocolMessage| Some((json_of(&part_of(x, Part::Eb))?, json_of(&part_of(x, Part::Nb))?));
        let Some((eb, nb)) = parts(second) else { return };
        let Some(v) = rig.recommit(&shared, &m, &eb, &nb) else { return };
        if Some(v) != json_of(&part_of(first, Part::Eb)) {
            self.ctx.note(format!("{}: the commitment is not computed as the harness expects; committed changes are not tried", R::NAME));
            return;
        }
        let mut rng = rng_for(&format!("{} recommit", label), k);
        // some of the changed maps in every case, and all of them over the cases
        let sure = maps_changed(second);
        let lens = lengths_changed(&mut rng, second);
        let some = sure.len().min(self.sessions);
        let first = lens.len().min(self.sessions / 2);
        for i in 0..self.sessions * 2 + some + first {
            let turn = k as usize / 7;
            let next = if i < some {
                Some(sure[(turn * some + i) % sure.len()].clone())
            } else if i < some + first {
                Some(lens[(turn * first + i - some) % lens.len()].clone())
            } else {
                change(&mut rng, 2, second, docs)
            };
            let Some((name, part, bytes)) = next else { continue };
            let mut changed = with_part(second, part, bytes.clone());
            let mut names = name;
            if i >= some + first && rng.next_u32() % 4 == 0 {
                if let Some((n2, p2, b2)) = change(&mut rng, 2, &changed, docs) {
                    changed = with_part(&changed, p2, b2);
                    names = format!("{} and {}", names, n2);
                }
            }
            let readable = |p: Part| part_of(&changed, p).and_then(|b| serde_json::from_slice::<J>(&b).ok());
            let (Some(eb), Some(nb)) = (readable(Part::Eb), readable(Part::Nb)) else { continue };
            let Some(v) = no_panic(|| rig.recommit(&shared, &m, &eb, &nb)).ok().flatten() else { continue };
            let p = Plan::default()
                .edit(m, 1, Part::Eb, None, bytes_of(&v))
                .edit(m, 2, Part::Eb, None, part_of(&changed, Part::Eb))
                .edit(m, 2, Part::Nb, None, part_of(&changed, Part::Nb));
            let out = attacked(rig, seed, order_of_case(k), &p, None);
            self.ctx.count(&format!("{} sessions with a committed change", R::NAME));
            self.ctx.distinct(format!("{} committed {}", R::NAME, names).as_bytes());
            let bad: BTreeSet<I> = [m].into();
            let text = || format!("{}: {} committed a changed second message: {}: {}", base, m, names, part_text(&bytes));
            self.ends(rig, c, seed, &out, &bad, &text);
            // everything but the blinding value enters a proof of the last round; masks of shares only concern one receiver
            let field = [Part::Eb, Part::Nb].into_iter().find_map(|p| {
                let (mut a, mut b) = (json_of(&part_of(second, p))?, json_of(&part_of(&changed, p))?);
                for x in [&mut a, &mut b] {
                    if let Some(o) = x.as_object_mut() {
                        o.remove("u");
                        o.remove("cap_ys");
                    }
                }
                altered(R::NAME, 2, p, 0, &bytes_of(&a), &bytes_of(&b))
            });
            if let Some(f) = field {
                self.ctx.measure("sessions with another committed and proved value", 1);
                for (i, p) in out.parties.iter().filter(|x| !bad.contains(x.0)) {
                    if let Some(End::Result(_)) = p.end {
                        self.report(Fault::Blame, format!("{}: a result although {} does not fit the rest", R::NAME, f), format!("{}; {}", i, text()));
                    }
                }
            }
        }
    }
}
fn order_of_case(k: u64) -> Order {
    super::protofix::order_no(k)
}
fn cut_digits(s: &str) -> String {
    short(s, 90).split(|c: char| c.is_ascii_digit()).filter(|x| !x.is_empty()).collect::<Vec<_>>().join("#")
}
pub fn part_text(b: &Bytes) -> String {
    match b {
        None => "nothing".into(),
        Some(b) => short(&String::from_utf8_lossy(b), 300),
    }
}

impl<'a> Campaign<'a> {
    /// An old holder announces another share ID, together with a polynomial for which the announced old shares still
    /// add up to the verifying key, having seen what the others announced.
    pub fn announced_id(&self, k: u64) {
        let c = curve_of::<T>();
        let mut rng = rng_for("announced share ID", k);
        let n = 2 + (k % 3) as usize;
        let mut rig = ResharingRig::make(&mut rng, n);
        let all: Vec<I> = rig.old.keys().cloned().collect();
        let m = all[rng.next_u32() as usize % n];
        // the polynomial is fixed at zero and at the honest new holders
        rig.new.insert(m);
        rig.t = rig.new.len();
        let seed = rng.next_u64() >> 1;
        let honest = attacked(&rig, seed, Order::Random, &Plan::default(), None);
        let mut said: BTreeMap<I, (Nat, Aff)> = BTreeMap::new();
        let mut new_ids: BTreeMap<I, Nat> = BTreeMap::new();
        for p in honest.parties.values() {
            for ((_, from), msg) in &p.log {
                let Some(j) = json_of(&part_of(msg, Part::Eb)) else { return };
                said.insert(*from, (super::protofix::scal::<T>(&j["old_share_id"]), super::protofix::point::<T>(&j["public_polynomial"][0])));
            }
            if let Some(End::Result(Some(s))) = &p.end {
                new_ids = super::protofix::tks_view(s).ids;
            }
        }
        if said.len() != n || new_ids.is_empty() {
            self.ctx.measure("scenes not set up", 1);
            return;
        }
        let others: Vec<I> = all.iter().filter(|x| **x != m).cloned().collect();
        let (name, id) = match k / 3 % 4 {
            0 => ("the ID of another holder", said[&others[rng.next_u32() as usize % others.len()]].0.clone()),
            1 => ("the ID zero", Nat::zero()),
            2 => ("an unused ID", Nat::random_below(&mut rng, &c.n)),
            _ => ("its own ID", said[&m].0.clone()),
        };
        let mut now = said.clone();
        now.insert(m, (id.clone(), None));
        // coefficients as the receiver computes them, leaving out equal IDs
        let co = |i: &I| {
            let x = &now[i].0;
            now.values().filter(|y| y.0 != *x).fold(Nat::one(), |a, y| {
                let d = y.0.add(&c.n).sub(x).rem(&c.n);
                a.mulmod(&y.0, &c.n).mulmod(&d.invmod(&c.n).unwrap(), &c.n)
            })
        };
        let rest = others.iter().fold(None, |a, i| c.add(&a, &c.mul(&co(i), &said[i].1)));
        let Some(inv) = co(&m).invmod(&c.n) else { return };
        let zeroth = c.mul(&inv, &c.add(&rig.key, &c.neg(&rest)));
        // values at the honest new holders
        let mut at: Vec<(Nat, Aff)> = vec![(Nat::zero(), zeroth)];
        let mut subs: Vec<(I, Nat)> = vec![];
        for (i, x) in new_ids.iter().filter(|x| *x.0 != m) {
            let v = Nat::random_below(&mut rng, &c.n);
            at.push((x.clone(), c.mul(&v, &c.gen())));
            subs.push((*i, v));
        }
        let xs: Vec<Nat> = at.iter().map(|a| a.0.clone()).collect();
        let mut coeffs: Vec<Aff> = vec![None; xs.len()];
        for (x, v) in &at {
            let mut basis = vec![Nat::one()];
            for y in xs.iter().filter(|y| *y != x) {
                // times (X - y) / (x - y)
                let d = x.add(&c.n).sub(y).rem(&c.n).invmod(&c.n).unwrap();
                let mut next = vec![Nat::zero(); basis.len() + 1];
                for (e, b) in basis.iter().enumerate() {
                    next[e + 1] = next[e + 1].add(&b.mulmod(&d, &c.n)).rem(&c.n);
                    next[e] = next[e].add(&b.mulmod(&d, &c.n).mulmod(&c.n.sub(y), &c.n)).rem(&c.n);
                }
                basis = next;
            }
            for (e, b) in basis.iter().enumerate() {
                coeffs[e] = c.add(&coeffs[e], &c.mul(b, v));
            }
        }
        if coeffs.iter().any(|x| x.is_none()) {
            return;
        }
        let hex = |b: &[u8]| format!("0x{}", b.iter().map(|x| format!("{:02x}", x)).collect::<String>());
        let eb = serde_json::json!({
            "public_polynomial": coeffs.iter().map(|x| hex(&c.compressed(x))).collect::<Vec<_>>(),
            "old_share_id": sc_json::<T>(&c, &id),
        });
        let mut plan = Plan::default().edit(m, 1, Part::Eb, None, bytes_of(&eb));
        for (i, v) in &subs {
            plan = plan.edit(m, 1, Part::Dm, Some(*i), bytes_of(&serde_json::json!({ "subshare": sc_json::<T>(&c, v) })));
        }
        let out = attacked(&rig, seed, order_of_case(k), &plan, None);
        self.ctx.count(&format!("{} sessions with {} announced", ResharingRig::NAME, name));
        for (i, p) in out.parties.iter().filter(|x| *x.0 != m && rig.new.contains(x.0)) {
            let how = match p.end.as_ref() {
                Some(End::Result(_)) => "shares",
                Some(End::Refused) => "refusals",
                Some(End::Local { .. }) => "local errors",
                _ => "other ends",
            };
            let _ = i;
            self.ctx.measure(&format!("{} announced: {}", name, how), 1);
        }
        let bad: BTreeSet<I> = [m].into();
        self.ends(&rig, &c, seed, &out, &bad, &|| format!("case {}: old holder {} announces {} and fitting shares", k, m, name));
    }
}

/// A share of all protocols and scenes.
pub fn all(c: &Campaign, k: u64) {
    let plain: Scene = ("one party deviates", honest_scene);
    let n = [2, 3, 3, 2, 4][(k / 7 % 5) as usize];
    if k % 7 == 4 {
        for i in 0..4 {
            c.announced_id(k / 7 * 4 + i);
        }
    }
    match k % 7 {
        0 => c.attack::<KeyInitRig>("key init", k, n, &plain),
        1 => c.attack::<AuxGenRig>("aux gen", k, n.min(3), &plain),
        2 => c.attack::<KeyRefreshRig>("key refresh", k, n.min(3), &plain),
        3 => c.attack::<SigningRig>("signing", k, n, &plain),
        4 => c.attack::<ResharingRig>("resharing", k, n, &plain),
        5 => c.attack::<SigningRig>("signing", k, [3, 4][(k / 7 % 2) as usize], &("after a wrong delta", wrong_delta)),
        _ => c.attack::<SigningRig>("signing", k, [3, 4][(k / 7 % 2) as usize], &("after a wrong S", wrong_s)),
    }
}
