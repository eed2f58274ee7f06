// C24: a deviating party is blamed with evidence that verifies, and honest results stay consistent.
use std::prelude::rust_2021::*;

use super::attack::*;
use super::common::*;
use super::rigs::*;

pub fn main() -> i32 {
    big_stack(|| {
        let ctx = Ctx::new("C24");
        let camp = Campaign { ctx: &ctx, fault: Fault::Blame, mutants: scale(60, 150) as usize, sessions: scale(6, 12) as usize };
        ctx.par(scale(8 * 40, 8 * 3000), |k| if k % 8 == 7 { (0..2).for_each(|i| camp.own_values(k / 8 * 2 + i)) } else { all(&camp, k / 8 * 7 + k % 8) });
        ctx.finish(
            "Sessions of all five protocols (and signing sessions forced into the two error rounds) in which one party's message is changed field by field: every delivered message of an honest run is varied and fed to its receiver, who has to refuse other proofs and other committed or proved values; changes accepted at first, and changes behind refitted commitments, are carried through whole sessions; parties with their own secrets send fitting messages about values that are not allowed (short moduli, share changes not cancelling out), next to allowed ones as a control; key resharing senders announce other share IDs with fitting polynomials. Every refusal is turned into evidence, serialized, and judged with public session data; honest results are compared and checked with the harness's own arithmetic",
            &["messages reach the protocol through the manul stand-in (JSON wire format), which delivers, stores and serves them as evidence as manul documents", "normal broadcasts are the same for all receivers of one sender unless the session edits them"],
        )
    })
}
