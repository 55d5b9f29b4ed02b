//! Harnesses over the real code of generic-vec (path dependency on /repo). See /verif/DESIGN.md.
#![cfg_attr(feature = "nightly", feature(allocator_api))]
#![allow(clippy::all, unused)]
#[macro_use]
pub mod rt;
pub mod edit;
pub mod drain;
pub mod cursor;
pub mod list;
pub mod grow;
pub mod ranges;
pub mod cmp;
pub mod spare;
pub mod wrap;
pub mod cap;
