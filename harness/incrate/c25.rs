// C25: no claim against an honest party is confirmed, and judging claims never crashes.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::sync::OnceLock;
use std::vec;
use std::vec::Vec;

use super::attack::*;
use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::rigs::*;
use super::session::*;
use super::util::*;
use super::zkfix::*;
use crate::curve::{Point, Scalar};
use manul::protocol::*;
use rand_core::RngCore;
use serde_json::{json, Map, Value as J};

/// One kind of claim: which of its fields name a party and which hold a scalar.
struct Kind {
    name: String,
    id_fields: Vec<String>,
    scalar_fields: Vec<String>,
}

fn build<R: Rig>(k: &Kind, ids: &[I], scalars: &[J]) -> Option<Errs<R>> {
    let v = if k.id_fields.is_empty() && k.scalar_fields.is_empty() {
        J::String(k.name.clone())
    } else {
        let mut m = Map::new();
        for (f, i) in k.id_fields.iter().zip(ids) {
            m.insert(f.clone(), json!(i));
        }
        for (f, s) in k.scalar_fields.iter().zip(scalars) {
            m.insert(f.clone(), s.clone());
        }
        json!({ k.name.clone(): m })
    };
    serde_json::from_value(R::wrap(v)).ok()
}

/// All kinds of claims, as the error type itself lists them.
fn kinds<R: Rig>(ctx: &Ctx, zero: &J) -> Vec<Kind> {
    let mut all = vec![];
    for name in variants::<Errs<R>>(R::wrap) {
        let unit = Kind { name: name.clone(), id_fields: vec![], scalar_fields: vec![] };
        if build::<R>(&unit, &[], &[]).is_some() {
            all.push(unit);
            continue;
        }
        let mut m: Vec<(String, bool)> = vec![];
        for _ in 0..12 {
            let mut o = Map::new();
            for (f, scalar) in &m {
                o.insert(f.clone(), if *scalar { zero.clone() } else { json!(1u32) });
            }
            match serde_json::from_value::<Errs<R>>(R::wrap(json!({ name.clone(): o }))) {
                Ok(_) => {
                    all.push(Kind {
                        name: name.clone(),
                        id_fields: m.iter().filter(|x| !x.1).map(|x| x.0.clone()).collect(),
                        scalar_fields: m.iter().filter(|x| x.1).map(|x| x.0.clone()).collect(),
                    });
                    m.clear();
                    break;
                }
                Err(e) => {
                    let e = e.to_string();
                    match e.strip_prefix("missing field `").and_then(|x| x.split('`').next()) {
                        Some(f) => m.push((f.to_string(), false)),
                        None => match m.iter_mut().rev().find(|x| !x.1) {
                            Some(x) => x.1 = true,
                            None => break,
                        },
                    }
                }
            }
        }
        if all.last().map(|k| k.name != name).unwrap_or(true) {
            ctx.note(format!("{}: claims of the kind {} could not be built", R::NAME, name));
        }
    }
    if all.is_empty() {
        ctx.inconclusive(format!("{}: no kind of claim could be built", R::NAME));
    }
    all
}

/// Discrete logarithms on the small test curve.
pub fn dlog(c: &CurveRef, p: &Point<T>) -> Option<Nat> {
    const STEP: u64 = 1 << 17;
    static BABY: OnceLock<HashMap<Vec<u8>, u64>> = OnceLock::new();
    let table = BABY.get_or_init(|| {
        let mut m = HashMap::new();
        let mut q = Point::<T>::identity();
        for i in 0..STEP {
            m.insert(q.to_compressed_array().to_vec(), i);
            q = q + Point::<T>::generator();
        }
        m
    });
    if c.n.bits() > 34 {
        return None;
    }
    let back = pt_of(c, &c.n.sub(&Nat::from(STEP)));
    let mut q = *p;
    for i in 0..(1u64 << 17) {
        if let Some(j) = table.get(&q.to_compressed_array().to_vec()) {
            return Some(Nat::from(i * STEP + j).rem(&c.n));
        }
        q = q + back;
    }
    None
}

struct Job<'a, R: Rig> {
    ctx: &'a Ctx,
    rig: &'a R,
    c: &'a CurveRef,
    seed: u64,
    out: &'a Outcome<I, R::P>,
    bad: BTreeSet<I>,
    what: String,
}

impl<'a, R: Rig> Job<'a, R> {
    fn n(&self) -> &'static str {
        R::NAME
    }
    /// The scalar an accusation carries, found from what the accuser announced for the accused.
    fn true_scalar(&self, by: &I, guilty: &I) -> Option<J> {
        let eb = self.out.ebs.get(&(2, *by))?;
        let j: J = serde_json::from_slice(eb.bytes()?).ok()?;
        let p = j.get("cap_ys")?.as_array()?.iter().find(|p| p[0] == json!(guilty))?[1].clone();
        let y = dlog(self.c, &from_json::<Point<T>>(&p).ok()?)?;
        Some(sc_json::<T>(self.c, &y))
    }
    fn claims(&self, rng: &mut Rng, k: &Kind, guilty: &I) -> Vec<(Errs<R>, Vec<I>, String)> {
        let zero = sc_json::<T>(self.c, &Nat::zero());
        let mut ids: Vec<I> = self.rig.ids().into_iter().collect();
        ids.push(loop {
            let x = rng.next_u32();
            if !ids.contains(&x) {
                break x;
            }
        });
        let mut picks: Vec<Vec<I>> = vec![vec![]];
        for _ in &k.id_fields {
            picks = picks.into_iter().flat_map(|p| ids.iter().map(move |i| p.iter().cloned().chain([*i]).collect())).collect();
        }
        let mut res = vec![];
        for p in picks {
            if k.scalar_fields.is_empty() {
                if let Some(e) = build::<R>(k, &p, &[]) {
                    res.push((e, p.clone(), String::new()));
                }
                continue;
            }
            let mut values: Vec<(&str, J)> = vec![("zero", zero.clone()), ("random", sc_json::<T>(self.c, &Nat::random_below(rng, &self.c.n)))];
            if let Some(by) = p.first() {
                if let Some(v) = self.true_scalar(by, guilty) {
                    values.push(("the true value", v));
                }
            }
            for (name, v) in values {
                let vs: Vec<J> = k.scalar_fields.iter().map(|_| v.clone()).collect();
                if let Some(e) = build::<R>(k, &p, &vs) {
                    res.push((e, p.clone(), format!(" with {}", name)));
                }
            }
        }
        res
    }

    fn run(&self, label: &str) {
        let shared = self.seed.to_le_bytes();
        let zero = sc_json::<T>(self.c, &Nat::zero());
        let ks = kinds::<R>(self.ctx, &zero);
        let mut rng = rng_for(label, self.seed);
        let docs = docs_of::<R>(self.out);
        self.ctx.measure(&format!("{}: kinds of claims", self.n()), ks.len() as u64);
        for g in self.rig.ids().into_iter().filter(|g| !self.bad.contains(g)) {
            let rounds: BTreeSet<u8> = self.out.parties.values().flat_map(|p| p.log.keys().filter(|x| x.1 == g).map(|x| x.0)).collect();
            for k in &ks {
                for (e, named, extra) in self.claims(&mut rng, k, &g) {
                    let req = match no_panic(|| e.required_messages()) {
                        Ok(r) => r,
                        Err(p) => {
                            self.ctx.violation(&format!("{}: collecting evidence for {} panics", self.n(), k.name), "claim", p);
                            continue;
                        }
                    };
                    let direct = req.this_round.direct_message || req.previous_rounds.iter().flatten().any(|x| x.1.direct_message);
                    for r in &rounds {
                        for (by, p) in self.out.parties.iter().filter(|x| *x.0 != g && x.1.log.contains_key(&(*r, g))) {
                            let msg = &p.log[&(*r, g)];
                            let Some(ev) = assemble(&e, *r, &g, msg, &p.log, &self.out.ebs) else {
                                self.ctx.measure("claims without the required messages", 1);
                                break;
                            };
                            let what = || format!("{}: {} claims {}{} naming {:?} about round {} against {}", self.what, by, k.name, extra, named, r, g);
                            self.ctx.count(&format!("{}: claims against an honest party", self.n()));
                            self.ctx.distinct(format!("{} {} {} {}", self.n(), k.name, r, extra).as_bytes());
                            match judge(&e, &g, &shared, &self.rig.data(by), &ev) {
                                Judgement::Accepted => {
                                    let other = direct && !named.is_empty() && !named.contains(by);
                                    let sig = format!(
                                        "{}: {} is confirmed against an honest party{}",
                                        self.n(),
                                        k.name,
                                        if other { ", the direct message having been sent to another party than the claim names" } else { "" }
                                    );
                                    self.ctx.violation(&sig, "claim", what());
                                }
                                Judgement::Rejected(_) => self.ctx.measure("claims rejected", 1),
                                Judgement::Local(_) => self.ctx.measure("claims that could not be judged", 1),
                                Judgement::Panic(s) => self.ctx.violation(&format!("{}: judging {} panics", self.n(), k.name), "claim", format!("{}; {}", s, what())),
                            }
                            // the same claim over changed messages: whatever the verdict, no crash
                            for _ in 0..2 {
                                let mut ev = ev.clone();
                                let Some(name) = self.spoil(&mut rng, *r, &mut ev, &docs) else { continue };
                                self.ctx.count(&format!("{}: claims over changed messages", self.n()));
                                if let Judgement::Panic(s) = judge(&e, &g, &shared, &self.rig.data(by), &ev) {
                                    self.ctx.violation(&format!("{}: judging {} panics", self.n(), k.name), "claim", format!("{}; {}; {}", s, name, what()));
                                }
                            }
                            if !direct {
                                break;
                            }
                        }
                    }
                }
            }
            // claims that a part is malformed
            for (by, p) in self.out.parties.iter().filter(|x| *x.0 != g) {
                for ((r, _), m) in p.log.iter().filter(|x| x.0 .1 == g) {
                    for part in PARTS {
                        self.ctx.count(&format!("{}: malformed-part claims against an honest party", self.n()));
                        match judge_malformed::<I, R::P>(*r, part, &part_of(m, part)) {
                            Judgement::Accepted => self.ctx.violation(
                                &format!("{}: a genuine {:?} of round {} is confirmed to be malformed", self.n(), part, r),
                                "claim",
                                format!("{}: {} about {}", self.what, by, g),
                            ),
                            Judgement::Panic(s) => {
                                self.ctx.violation(&format!("{}: judging a malformed-part claim panics", self.n()), "claim", format!("{}; {:?} of round {}", s, part, r))
                            }
                            _ => self.ctx.measure("malformed-part claims rejected", 1),
                        }
                        if let Some((name, part, bytes)) = change(&mut rng, *r, m, &docs) {
                            if let Judgement::Panic(s) = judge_malformed::<I, R::P>(*r, part, &bytes) {
                                self.ctx.violation(&format!("{}: judging a malformed-part claim panics", self.n()), "claim", format!("{}; {} in round {}", s, name, r))
                            }
                        }
                    }
                }
            }
        }
    }

    fn spoil(&self, rng: &mut Rng, round: u8, ev: &mut Evidence<I>, docs: &Docs) -> Option<String> {
        let places = 1 + ev.previous.len() + ev.echos.len();
        let k = rng.next_u32() as usize % places;
        if k == 0 {
            let (name, part, b) = change(rng, round, &ev.message, docs)?;
            ev.message = with_part(&ev.message, part, b);
            return Some(format!("message: {}", name));
        }
        if k <= ev.previous.len() {
            let (r, m) = ev.previous.iter_mut().nth(k - 1)?;
            let (name, part, b) = change(rng, r.0, m, docs)?;
            *m = with_part(m, part, b);
            return Some(format!("message of round {}: {}", r.0, name));
        }
        let (r, m) = ev.echos.iter_mut().nth(k - 1 - ev.previous.len())?;
        let i = rng.next_u32() as usize % m.len();
        let id = *m.keys().nth(i)?;
        if rng.next_u32() % 6 == 0 {
            m.remove(&id);
            return Some(format!("echo of {} in round {} left out", id, r.0));
        }
        let mut whole = ProtocolMessage { echo_broadcast: m[&id].clone(), normal_broadcast: NormalBroadcast::none(), direct_message: DirectMessage::none() };
        let (name, part, b) = change(rng, r.0, &whole, docs)?;
        if part != Part::Eb {
            return None;
        }
        whole = with_part(&whole, part, b);
        m.insert(id, whole.echo_broadcast.clone());
        Some(format!("echo of {} in round {}: {}", id, r.0, name))
    }
}

fn one<R: Rig>(ctx: &Ctx, label: &str, k: u64, n: usize, scene: &Scene) {
    let c = curve_of::<T>();
    let mut rng = rng_for(label, k);
    let rig = R::make(&mut rng, n);
    let seed = rng.next_u64() >> 1;
    let honest = attacked(&rig, seed, Order::Random, &Plan::default(), None);
    ctx.measure(&format!("{} honest sessions", R::NAME), 1);
    let mut msgs: BTreeMap<(u8, I, I), ProtocolMessage> = BTreeMap::new();
    for (to, p) in &honest.parties {
        for ((r, from), m) in &p.log {
            msgs.insert((*r, *from, *to), m.clone());
        }
    }
    let mut ids: Vec<I> = msgs.keys().map(|x| x.1).collect::<BTreeSet<_>>().into_iter().collect();
    if ids.is_empty() {
        return;
    }
    let at = rng.next_u32() as usize % ids.len();
    ids.rotate_left(at);
    let Some(plan) = (scene.1)(&mut rng, &c, &msgs, &ids) else {
        ctx.measure("scenes not set up", 1);
        return;
    };
    let bad = plan.deviators();
    if bad.is_empty() {
        Job { ctx, rig: &rig, c: &c, seed, out: &honest, bad, what: format!("{} case {} (nobody deviates)", R::NAME, k) }.run(label);
        // and once more with one party sending something else
        let docs = docs_of::<R>(&honest);
        let mine: Vec<&(u8, I, I)> = msgs.keys().filter(|x| x.1 == ids[0]).collect();
        let key = *mine[rng.next_u32() as usize % mine.len()];
        let Some((name, part, b)) = change(&mut rng, key.0, &msgs[&key], &docs) else { return };
        let to = if part == Part::Dm { Some(key.2) } else { None };
        let plan = Plan::default().edit(ids[0], key.0, part, to, b);
        let out = attacked(&rig, seed, Order::Random, &plan, None);
        ctx.measure(&format!("{} sessions with one deviating party", R::NAME), 1);
        let what = format!("{} case {} ({} sends {} in round {})", R::NAME, k, ids[0], name, key.0);
        Job { ctx, rig: &rig, c: &c, seed, out: &out, bad: plan.deviators(), what }.run(label);
    } else {
        let starve = Order::Starve(rig.ids().iter().position(|y| bad.contains(y)).unwrap());
        let out = attacked(&rig, seed, starve, &plan, None);
        ctx.measure(&format!("{} sessions {}", R::NAME, scene.0), 1);
        Job { ctx, rig: &rig, c: &c, seed, out: &out, bad, what: format!("{} case {} ({})", R::NAME, k, scene.0) }.run(label);
    }
}

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C25");
        let plain: Scene = ("nobody deviates", honest_scene);
        ctx.par(scale(7 * 40, 7 * 2000), |k| {
            let n = [3, 2, 3, 4, 2][(k / 7 % 5) as usize];
            match k % 7 {
                0 => one::<SigningRig>(&ctx, "claims after delta", k, [3, 4][(k / 7 % 2) as usize], &("after a wrong delta", wrong_delta)),
                1 => one::<SigningRig>(&ctx, "claims after S", k, [3, 4][(k / 7 % 2) as usize], &("after a wrong S", wrong_s)),
                2 => one::<SigningRig>(&ctx, "claims signing", k, n.min(3), &plain),
                3 => one::<KeyRefreshRig>(&ctx, "claims refresh", k, n.min(3), &plain),
                4 => one::<AuxGenRig>(&ctx, "claims aux", k, n, &plain),
                5 => one::<KeyInitRig>(&ctx, "claims init", k, n, &plain),
                _ => one::<ResharingRig>(&ctx, "claims resharing", k, n, &plain),
            }
        });
        ctx.finish(
            "Every kind of claim the error types list (found through their own decoding), naming every party and an unknown one, with true, zero and random attached scalars, over every message of every honest party: in honest sessions, in sessions with a random change by one party, and in sessions forced into the signing error rounds; none may be confirmed, and no claim, also over changed messages, may crash the judge",
            &["combined echos in evidence are those which the accused party received and signed", "the evidence consists of messages of one session"],
        )
    })
}
