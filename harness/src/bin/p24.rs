//! P24: declarations rich in conditions, skips and defaults, against the reference interpreter.
include!(concat!(env!("OUT_DIR"), "/p24.rs"));
use vh::fam::{self, Fam};
use vh::{wr_ops, Check};

fn main() {
    let f = Fam::new("P24", SEED, SCALE);
    let table = Box::leak(each!(wr_ops).into_boxed_slice());
    vh::engine::main(Check {
        property: "P24",
        rule: "at least two leaves, two features at work, one of them a field that is conditional or skipped",
        assumptions: vec![fam::ASSUME],
        legs: fam::legs(f, table, &["condition met", "left out"], [200000, 150000, 0]),
    })
}
