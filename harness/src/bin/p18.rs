//! P18: declarations handing context values down, against the reference interpreter.
include!(concat!(env!("OUT_DIR"), "/p18.rs"));
#[path = "../borrowed.rs"]
mod borrowed;
use vh::fam::{self, Fam};
use vh::{wr_ops, Check};

fn main() {
    let f = Fam::new("P18", SEED, SCALE);
    let table = Box::leak(each!(wr_ops).into_boxed_slice());
    let mut legs = fam::legs(f, table, &["context", "other byte order", "least significant first"], [200000, 150000, 60000]);
    legs.extend(borrowed::legs());
    vh::engine::main(Check {
        property: "P18",
        rule: "at least two leaves, two features at work, one of them a context value reaching a nested declaration, a byte order or a bit order; for borrowed contexts that a body was read or has content",
        assumptions: vec![fam::ASSUME],
        legs,
    })
}
