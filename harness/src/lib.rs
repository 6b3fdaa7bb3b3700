//! Shared machinery of the checks: see DESIGN.md.
pub mod alloc;
pub mod codec;
pub mod custom;
pub mod engine;
pub mod fam;
pub mod interp;
pub mod io;
pub mod model;
pub mod ops;
pub mod prim;
pub mod raw;
pub mod render;
pub mod schema;
pub mod val;
pub mod wire;

pub use engine::{fail, Check, Cx, Fail, Leg, Src};
