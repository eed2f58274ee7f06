// C26: no message of a peer crashes an honest party or leaves the fault unattributed.
use std::prelude::rust_2021::*;

use super::attack::*;
use super::common::*;
use super::rigs::*;

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C26");
        let camp = Campaign { ctx: &ctx, fault: Fault::Crash, mutants: scale(60, 150) as usize, sessions: scale(6, 12) as usize };
        ctx.par(scale(7 * 40, 7 * 3000), |k| all(&camp, k));
        ctx.finish(
            "The same workload as C24 (changed, missing, truncated, retyped, degenerate and refitted messages in every round of every protocol, error rounds included); any panic of an honest party or of the judge, and any honest failure that names nobody, is a violation",
            &["messages reach the protocol through the manul stand-in (JSON wire format), which delivers, stores and serves them as evidence as manul documents", "normal broadcasts are the same for all receivers of one sender unless the session edits them"],
        )
    })
}
