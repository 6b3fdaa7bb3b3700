//! P15: declarations rich in seeks, against the reference interpreter.
include!(concat!(env!("OUT_DIR"), "/p15.rs"));
use vh::fam::{self, Fam};
use vh::{wr_ops, Check};

fn main() {
    let f = Fam::new("P15", SEED, SCALE);
    let table = Box::leak(each!(wr_ops).into_boxed_slice());
    vh::engine::main(Check {
        property: "P15",
        rule: "at least two leaves, two features at work, one of them a seek",
        assumptions: vec![fam::ASSUME],
        legs: fam::legs(f, table, &["seek"], [200000, 150000, 0]),
    })
}
