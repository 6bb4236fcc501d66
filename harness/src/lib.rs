//! Property-based checks of dynparser, see /verif/DESIGN.md
#[macro_use]
extern crate dynparser;

pub mod compile;
pub mod gen;
pub mod model;
pub mod pbt;
pub mod pegref;
pub mod props;
pub mod runner;
pub mod scale;
pub mod sut;
