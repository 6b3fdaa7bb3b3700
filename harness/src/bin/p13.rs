//! P13: declarations rich in magics and assertions, against the reference interpreter.
include!(concat!(env!("OUT_DIR"), "/p13.rs"));
use vh::fam::{self, Fam};
use vh::{wr_ops, Check};

fn main() {
    let f = Fam::new("P13", SEED, SCALE);
    let table = Box::leak(each!(wr_ops).into_boxed_slice());
    vh::engine::main(Check {
        property: "P13",
        rule: "at least two leaves, two features at work, one of them a magic or an assertion",
        assumptions: vec![fam::ASSUME],
        legs: fam::legs(f, table, &["magic", "assertion"], [200000, 150000, 60000]),
    })
}
