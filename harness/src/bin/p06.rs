//! P06: generated declarations, written against the reference interpreter, and read back.
include!(concat!(env!("OUT_DIR"), "/p06.rs"));
use vh::fam::{self, Fam};
use vh::{wr_ops, Check};

fn main() {
    let f = Fam::new("P06", SEED, SCALE);
    let table = Box::leak(each!(wr_ops).into_boxed_slice());
    vh::engine::main(Check {
        property: "P06",
        rule: "at least two leaves were written, or refused, with at least two features at work",
        assumptions: vec![fam::ASSUME, "round trips are required of declarations whose attributes mean the same when reading and writing (no maps, skips, conditions, seeks, custom conversions, temporary fields, sets or reads to the end)"],
        legs: fam::legs(f, table, &[], [0, 300_000, 150_000]),
    })
}
