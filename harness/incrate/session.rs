// Sessions of the real protocol rounds under the harness's control: random delivery order, message changes, full logs,
// evidence assembly.
use std::boxed::Box;
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::vec;
use std::vec::Vec;

use super::common::*;
use manul::protocol::*;
use serde_json::Value as J;

pub const FORMAT: BoxedFormat = BoxedFormat;

#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Part {
    Eb,
    Nb,
    Dm,
}
pub const PARTS: [Part; 3] = [Part::Eb, Part::Nb, Part::Dm];

pub type Bytes = Option<Vec<u8>>;

pub fn part_of(m: &ProtocolMessage, p: Part) -> Bytes {
    match p {
        Part::Eb => m.echo_broadcast.bytes(),
        Part::Nb => m.normal_broadcast.bytes(),
        Part::Dm => m.direct_message.bytes(),
    }
    .map(|b| b.to_vec())
}
pub fn with_part(m: &ProtocolMessage, p: Part, b: Bytes) -> ProtocolMessage {
    let mut m = m.clone();
    match p {
        Part::Eb => m.echo_broadcast = EchoBroadcast::wrap(b),
        Part::Nb => m.normal_broadcast = NormalBroadcast::wrap(b),
        Part::Dm => m.direct_message = DirectMessage::wrap(b),
    }
    m
}
pub fn json_of(b: &Bytes) -> Option<J> {
    b.as_ref().map(|b| serde_json::from_slice(b).unwrap())
}
pub fn bytes_of(j: &J) -> Bytes {
    Some(serde_json::to_vec(j).unwrap())
}

/// How a party left the session.
#[derive(Debug)]
pub enum End<R> {
    Result(R),
    /// A message was refused: by whom it was sent, in which round, and the refusal.
    Refused,
    /// An error which names nobody.
    Local { round: u8, phase: &'static str, msg: String },
    Panic { round: u8, phase: &'static str, msg: String },
    /// Waiting for messages that never come.
    Stuck { round: u8 },
}
impl<R> End<R> {
    pub fn result(&self) -> Option<&R> {
        match self {
            End::Result(r) => Some(r),
            _ => None,
        }
    }
    pub fn kind(&self) -> String {
        match self {
            End::Result(_) => "result".into(),
            End::Refused => "refused".into(),
            End::Local { round, phase, msg } => format!("local error in {} of round {}: {}", phase, round, msg),
            End::Panic { round, phase, msg } => format!("panic in {} of round {}: {}", phase, round, msg),
            End::Stuck { round } => format!("stuck in round {}", round),
        }
    }
}

#[derive(Debug)]
pub struct Refusal<Id, P: Protocol<Id>> {
    pub round: u8,
    pub from: Id,
    pub message: ProtocolMessage,
    pub error: ReceiveError<Id, P>,
}

/// A generator whose buffered output is not left behind in memory.
pub struct Tidy(Box<Rng>);
impl Tidy {
    pub fn new(rng: Rng) -> Self {
        Tidy(Box::new(rng))
    }
}
impl RngCore for Tidy {
    fn next_u32(&mut self) -> u32 {
        self.0.next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        self.0.next_u64()
    }
    fn fill_bytes(&mut self, b: &mut [u8]) {
        self.0.fill_bytes(b)
    }
    fn try_fill_bytes(&mut self, b: &mut [u8]) -> Result<(), rand_core::Error> {
        self.0.try_fill_bytes(b)
    }
}
impl CryptoRng for Tidy {}
impl Drop for Tidy {
    fn drop(&mut self) {
        *self.0 = Rng::from_seed([0; 32]);
        std::hint::black_box(&mut self.0);
    }
}

pub struct Party<Id: PartyId, P: Protocol<Id>> {
    pub id: Id,
    pub round: Option<BoxedRound<Id, P>>,
    pub rng: Tidy,
    pub payloads: BTreeMap<Id, Payload>,
    pub artifacts: BTreeMap<Id, Artifact>,
    pub expecting: BTreeSet<Id>,
    pub early: Vec<(u8, Id, ProtocolMessage)>,
    /// Every message given to `receive_message`, by round and sender.
    pub log: BTreeMap<(u8, Id), ProtocolMessage>,
    pub refusal: Option<Refusal<Id, P>>,
    pub end: Option<End<P::Result>>,
}

/// Changes a message part before it is delivered: (round, from, part, to (None for broadcasts), bytes).
pub type Tamper<'a, Id> = &'a (dyn Fn(u8, &Id, Part, Option<&Id>, Bytes) -> Bytes + Sync);
/// Changes the copy of a message which one receiver gets: (round, to, from, message).
pub type Incoming<'a, Id> = &'a (dyn Fn(u8, &Id, &Id, ProtocolMessage) -> ProtocolMessage + Sync);
/// Looks at every message just before the real delivery; may feed the round with anything.
pub type Probe<'a, Id, P> = &'a (dyn Fn(&Party<Id, P>, u8, &Id, &ProtocolMessage) + Sync);

pub struct Outcome<Id: PartyId, P: Protocol<Id>> {
    pub parties: BTreeMap<Id, Party<Id, P>>,
    /// Echo broadcasts as sent, by round and sender.
    pub ebs: BTreeMap<(u8, Id), EchoBroadcast>,
    /// Order of deliveries (a digest of it distinguishes schedules).
    pub schedule: Vec<u8>,
    pub delivered: u64,
    pub start_errors: Vec<(Id, String)>,
}

struct Flight<Id> {
    to: Id,
    round: u8,
    from: Id,
    msg: ProtocolMessage,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Order {
    Random,
    Fifo,
    Lifo,
    /// One party's messages are always delivered last.
    Starve(usize),
}

pub struct Run<'a, Id: PartyId, P: Protocol<Id>> {
    pub seed: u64,
    pub order: Order,
    pub shared: Vec<u8>,
    pub tamper: Option<Tamper<'a, Id>>,
    pub probe: Option<Probe<'a, Id, P>>,
    pub incoming: Option<Incoming<'a, Id>>,
    /// Party seeds other than the default ones, by position.
    pub seeds: BTreeMap<usize, u64>,
}
impl<'a, Id: PartyId, P: Protocol<Id>> Run<'a, Id, P> {
    pub fn new(seed: u64) -> Self {
        Run { seed, order: Order::Random, shared: seed.to_le_bytes().to_vec(), tamper: None, probe: None, incoming: None, seeds: BTreeMap::new() }
    }
    pub fn order(mut self, o: Order) -> Self {
        self.order = o;
        self
    }
    pub fn tamper(mut self, t: Tamper<'a, Id>) -> Self {
        self.tamper = Some(t);
        self
    }
    pub fn probe(mut self, t: Probe<'a, Id, P>) -> Self {
        self.probe = Some(t);
        self
    }

    fn enter(&self, p: &mut Party<Id, P>, ebs: &mut BTreeMap<(u8, Id), EchoBroadcast>, flights: &mut Vec<Flight<Id>>) {
        let round = p.round.as_ref().unwrap();
        let n = round.id().0;
        let me = p.id.clone();
        let info = round.0.communication_info();
        p.expecting = info.expecting_messages_from.clone();
        let rng = &mut p.rng;
        let made = no_panic(|| -> Result<_, LocalError> {
            let eb = round.0.make_echo_broadcast(rng, &FORMAT)?;
            let nb = round.0.make_normal_broadcast(rng, &FORMAT)?;
            let mut dms = vec![];
            for to in &info.message_destinations {
                let (dm, a) = round.0.make_direct_message(rng, &FORMAT, to)?;
                dms.push((to.clone(), dm, a));
            }
            Ok((eb, nb, dms))
        });
        let (eb, nb, dms) = match made {
            Err(msg) => return p.end = Some(End::Panic { round: n, phase: "sending", msg }),
            Ok(Err(e)) => return p.end = Some(End::Local { round: n, phase: "sending", msg: e.to_string() }),
            Ok(Ok(x)) => x,
        };
        let t = |part: Part, to: Option<&Id>, b: Bytes| match self.tamper {
            Some(f) => f(n, &me, part, to, b),
            None => b,
        };
        let eb = EchoBroadcast::wrap(t(Part::Eb, None, eb.bytes().map(|x| x.to_vec())));
        let nb = NormalBroadcast::wrap(t(Part::Nb, None, nb.bytes().map(|x| x.to_vec())));
        ebs.insert((n, me.clone()), eb.clone());
        for (to, dm, a) in dms {
            let dm = DirectMessage::wrap(t(Part::Dm, Some(&to), dm.bytes().map(|x| x.to_vec())));
            if let Some(a) = a {
                p.artifacts.insert(to.clone(), a);
            }
            let msg = ProtocolMessage { echo_broadcast: eb.clone(), normal_broadcast: nb.clone(), direct_message: dm };
            flights.push(Flight { to, round: n, from: me.clone(), msg });
        }
    }

    /// Finalizes as long as everything needed has arrived.
    fn advance(&self, p: &mut Party<Id, P>, ebs: &mut BTreeMap<(u8, Id), EchoBroadcast>, flights: &mut Vec<Flight<Id>>) {
        while p.end.is_none() && p.expecting.iter().all(|x| p.payloads.contains_key(x)) {
            let round = p.round.take().unwrap();
            let n = round.id().0;
            let (payloads, artifacts) = (std::mem::take(&mut p.payloads), std::mem::take(&mut p.artifacts));
            let rng = &mut p.rng;
            match no_panic(|| round.0.finalize(rng, payloads, artifacts)) {
                Err(msg) => p.end = Some(End::Panic { round: n, phase: "finalizing", msg }),
                Ok(Err(e)) => p.end = Some(End::Local { round: n, phase: "finalizing", msg: e.to_string() }),
                Ok(Ok(FinalizeOutcome::Result(r))) => p.end = Some(End::Result(r)),
                Ok(Ok(FinalizeOutcome::AnotherRound(r))) => {
                    p.round = Some(r);
                    self.enter(p, ebs, flights);
                    if p.end.is_some() {
                        return;
                    }
                    let now = p.round.as_ref().unwrap().id().0;
                    for (k, from, msg) in std::mem::take(&mut p.early) {
                        if k == now {
                            flights.push(Flight { to: p.id.clone(), round: k, from, msg });
                        } else {
                            p.early.push((k, from, msg));
                        }
                    }
                }
            }
        }
    }

    pub fn go<E: EntryPoint<Id, Protocol = P>>(&self, entries: Vec<(Id, E)>) -> Outcome<Id, P> {
        let mut sched = rng_for("schedule", self.seed);
        let mut out = Outcome { parties: BTreeMap::new(), ebs: BTreeMap::new(), schedule: vec![], delivered: 0, start_errors: vec![] };
        let mut flights: Vec<Flight<Id>> = vec![];
        let ids: Vec<Id> = entries.iter().map(|x| x.0.clone()).collect();
        for (k, (id, e)) in entries.into_iter().enumerate() {
            let own = self.seed.wrapping_mul(1000).wrapping_add(k as u64);
            let mut rng = Tidy::new(rng_for("party", self.seeds.get(&k).copied().unwrap_or(own)));
            let round = match no_panic(|| e.make_round(&mut rng, &self.shared, &id)) {
                Err(p) => {
                    out.start_errors.push((id, format!("panic: {}", p)));
                    continue;
                }
                Ok(Err(x)) => {
                    out.start_errors.push((id, x.to_string()));
                    continue;
                }
                Ok(Ok(r)) => r,
            };
            let mut p = Party {
                id: id.clone(),
                round: Some(round),
                rng,
                payloads: BTreeMap::new(),
                artifacts: BTreeMap::new(),
                expecting: BTreeSet::new(),
                early: vec![],
                log: BTreeMap::new(),
                refusal: None,
                end: None,
            };
            self.enter(&mut p, &mut out.ebs, &mut flights);
            self.advance(&mut p, &mut out.ebs, &mut flights);
            out.parties.insert(id, p);
        }
        while !flights.is_empty() {
            let k = match self.order {
                Order::Random => (sched.next_u64() % flights.len() as u64) as usize,
                Order::Fifo => 0,
                Order::Lifo => flights.len() - 1,
                Order::Starve(who) => {
                    let slow = &ids[who % ids.len()];
                    let free: Vec<usize> = (0..flights.len()).filter(|i| &flights[*i].from != slow).collect();
                    if free.is_empty() {
                        0
                    } else {
                        free[(sched.next_u64() % free.len() as u64) as usize]
                    }
                }
            };
            let mut f = if self.order == Order::Fifo { flights.remove(k) } else { flights.swap_remove(k) };
            let Some(p) = out.parties.get_mut(&f.to) else { continue };
            if p.end.is_some() {
                continue;
            }
            let now = p.round.as_ref().unwrap().id().0;
            if f.round != now {
                if f.round > now {
                    p.early.push((f.round, f.from, f.msg));
                }
                continue;
            }
            if !p.expecting.contains(&f.from) || p.payloads.contains_key(&f.from) {
                continue;
            }
            out.delivered += 1;
            if let Some(c) = self.incoming {
                f.msg = c(now, &f.to, &f.from, f.msg);
            }
            let pos = |x: &Id| ids.iter().position(|y| y == x).unwrap_or(255) as u8;
            out.schedule.extend([f.round, pos(&f.to), pos(&f.from)]);
            if let Some(probe) = self.probe {
                probe(p, now, &f.from, &f.msg);
            }
            p.log.insert((now, f.from.clone()), f.msg.clone());
            let r = {
                let round = p.round.as_ref().unwrap();
                no_panic(|| round.0.receive_message(&FORMAT, &f.from, f.msg.clone()))
            };
            match r {
                Err(msg) => p.end = Some(End::Panic { round: now, phase: "receiving", msg }),
                Ok(Err(ReceiveError::Local(e))) => p.end = Some(End::Local { round: now, phase: "receiving", msg: e.to_string() }),
                Ok(Err(error)) => {
                    p.refusal = Some(Refusal { round: now, from: f.from.clone(), message: f.msg, error });
                    p.end = Some(End::Refused);
                }
                Ok(Ok(payload)) => {
                    p.payloads.insert(f.from.clone(), payload);
                    self.advance(p, &mut out.ebs, &mut flights);
                }
            }
        }
        for p in out.parties.values_mut() {
            if p.end.is_none() {
                p.end = Some(End::Stuck { round: p.round.as_ref().unwrap().id().0 });
            }
        }
        out
    }
}

impl<Id: PartyId, P: Protocol<Id>> Outcome<Id, P> {
    pub fn end(&self, id: &Id) -> &End<P::Result> {
        self.parties[id].end.as_ref().unwrap()
    }
    /// Every party's result, or what went wrong.
    pub fn results(self) -> Result<BTreeMap<Id, P::Result>, String> {
        if let Some((id, e)) = self.start_errors.first() {
            return Err(format!("{:?} could not start: {}", id, e));
        }
        let mut m = BTreeMap::new();
        for (id, p) in self.parties {
            match p.end.unwrap() {
                End::Result(r) => {
                    m.insert(id, r);
                }
                End::Refused => {
                    let r = p.refusal.unwrap();
                    return Err(format!("{:?} refused the message of {:?} in round {}: {:?}", id, r.from, r.round, r.error));
                }
                e => return Err(format!("{:?}: {}", id, e.kind())),
            }
        }
        Ok(m)
    }
}

// ---------------------------------------------------------------- evidence

/// The pieces of evidence against one party, as another one received them.
#[derive(Clone)]
pub struct Evidence<Id> {
    pub message: ProtocolMessage,
    pub previous: BTreeMap<RoundId, ProtocolMessage>,
    pub echos: BTreeMap<RoundId, BTreeMap<Id, EchoBroadcast>>,
}

fn keep(m: &ProtocolMessage, parts: &RequiredMessageParts) -> ProtocolMessage {
    let mut r = m.clone();
    if !parts.echo_broadcast {
        r.echo_broadcast = EchoBroadcast::none();
    }
    if !parts.normal_broadcast {
        r.normal_broadcast = NormalBroadcast::none();
    }
    if !parts.direct_message {
        r.direct_message = DirectMessage::none();
    }
    r
}

/// Assembles what `error` asks for, from what `log` (by round and sender) and the echoes hold. None if a piece is missing.
pub fn assemble<Id: PartyId, E: ProtocolError<Id>>(
    error: &E,
    round: u8,
    guilty: &Id,
    message: &ProtocolMessage,
    log: &BTreeMap<(u8, Id), ProtocolMessage>,
    ebs: &BTreeMap<(u8, Id), EchoBroadcast>,
) -> Option<Evidence<Id>> {
    let req = error.required_messages();
    let has = |m: &ProtocolMessage, p: &RequiredMessageParts| {
        (!p.echo_broadcast || !m.echo_broadcast.is_none())
            && (!p.normal_broadcast || !m.normal_broadcast.is_none())
            && (!p.direct_message || !m.direct_message.is_none())
    };
    if !has(message, &req.this_round) {
        return None;
    }
    let mut previous = BTreeMap::new();
    for (k, parts) in req.previous_rounds.iter().flatten() {
        let m = log.get(&(k.0, guilty.clone()))?;
        if k.0 >= round || !has(m, parts) {
            return None;
        }
        previous.insert(k.clone(), keep(m, parts));
    }
    let mut echos = BTreeMap::new();
    for k in req.combined_echos.iter().flatten() {
        let m: BTreeMap<Id, EchoBroadcast> =
            ebs.iter().filter(|((r, id), eb)| *r == k.0 && id != guilty && !eb.is_none()).map(|((_, id), eb)| (id.clone(), eb.clone())).collect();
        if m.is_empty() || k.0 >= round {
            return None;
        }
        echos.insert(k.clone(), m);
    }
    Some(Evidence { message: keep(message, &req.this_round), previous, echos })
}

#[derive(Debug, PartialEq, Eq, Clone)]
pub enum Judgement {
    Accepted,
    Rejected(String),
    Local(String),
    Panic(String),
}

pub fn judge<Id: PartyId, E: ProtocolError<Id>>(error: &E, guilty: &Id, shared: &[u8], data: &E::AssociatedData, ev: &Evidence<Id>) -> Judgement {
    match no_panic(|| {
        error.verify_messages_constitute_error(&FORMAT, guilty, shared, data, ev.message.clone(), ev.previous.clone(), ev.echos.clone())
    }) {
        Err(p) => Judgement::Panic(p),
        Ok(Ok(())) => Judgement::Accepted,
        Ok(Err(ProtocolValidationError::InvalidEvidence(s))) => Judgement::Rejected(s),
        Ok(Err(ProtocolValidationError::Local(e))) => Judgement::Local(e.to_string()),
    }
}

/// Whether the claim "this part is malformed" verifies.
pub fn judge_malformed<Id: PartyId, P: Protocol<Id>>(round: u8, part: Part, b: &Bytes) -> Judgement {
    let r = RoundId(round);
    match no_panic(|| match part {
        Part::Eb => P::verify_echo_broadcast_is_invalid(&FORMAT, &r, &EchoBroadcast::wrap(b.clone())),
        Part::Nb => P::verify_normal_broadcast_is_invalid(&FORMAT, &r, &NormalBroadcast::wrap(b.clone())),
        Part::Dm => P::verify_direct_message_is_invalid(&FORMAT, &r, &DirectMessage::wrap(b.clone())),
    }) {
        Err(p) => Judgement::Panic(p),
        Ok(Ok(())) => Judgement::Accepted,
        Ok(Err(MessageValidationError::InvalidEvidence(s))) => Judgement::Rejected(s),
        Ok(Err(MessageValidationError::Local(e))) => Judgement::Local(e.to_string()),
    }
}

/// The names of an error type's variants, as serde itself lists them.
pub fn variants<E: serde::de::DeserializeOwned>(wrap: impl Fn(J) -> J) -> Vec<String> {
    let e = serde_json::from_value::<E>(wrap(serde_json::json!("no such variant"))).err().map(|e| e.to_string()).unwrap_or_default();
    e.split('`').skip(3).step_by(2).map(|s| s.to_string()).collect()
}
