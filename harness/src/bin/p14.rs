//! P14: declarations rich in paddings, against the reference interpreter.
include!(concat!(env!("OUT_DIR"), "/p14.rs"));
use vh::fam::{self, Fam};
use vh::{wr_ops, Check};

fn main() {
    let f = Fam::new("P14", SEED, SCALE);
    let table = Box::leak(each!(wr_ops).into_boxed_slice());
    vh::engine::main(Check {
        property: "P14",
        rule: "at least two leaves, two features at work, one of them a padding of at least one bit",
        assumptions: vec![fam::ASSUME],
        legs: fam::legs(f, table, &["padding"], [200000, 150000, 60000]),
    })
}
