#![allow(clippy::all)]
pub mod v;
#[macro_use] pub mod h;
pub mod points;
pub mod sets;
pub mod rel;
pub mod arith;
pub mod conv;
pub mod graph;
pub mod sched;
pub mod seq;
pub mod text;
pub mod float;
#[cfg(feature = "serde")] pub mod ser;
