#![allow(clippy::all)]
pub mod comps;
pub mod conc;
pub mod model;
pub mod ops;
pub mod query;
pub mod rng;
pub use xecs;
pub mod keep;
pub mod occ;
pub mod own;
