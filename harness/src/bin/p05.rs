//! P05: generated declarations, read against the reference interpreter.
include!(concat!(env!("OUT_DIR"), "/p05.rs"));
use vh::fam::{self, Fam};
use vh::{wr_ops, Check};

fn main() {
    let f = Fam::new("P05", SEED, SCALE);
    let table = Box::leak(each!(wr_ops).into_boxed_slice());
    vh::engine::main(Check {
        property: "P05",
        rule: "the reference read at least two fields, or reported an error other than a missing end of input, with at least two features at work",
        assumptions: vec![fam::ASSUME],
        legs: fam::legs(f, table, &[], [400000, 0, 0]),
    })
}
