//! P25: declarations rich in maps, custom conversions and offsets, against the reference interpreter.
include!(concat!(env!("OUT_DIR"), "/p25.rs"));
use vh::fam::{self, Fam};
use vh::{wr_ops, Check};

fn main() {
    let f = Fam::new("P25", SEED, SCALE);
    let table = Box::leak(each!(wr_ops).into_boxed_slice());
    vh::engine::main(Check {
        property: "P25",
        rule: "at least two leaves, two features at work, one of them a map or a custom conversion",
        assumptions: vec![fam::ASSUME],
        legs: fam::legs(f, table, &["map", "map refuses", "custom reader", "custom writer"], [200000, 150000, 0]),
    })
}
