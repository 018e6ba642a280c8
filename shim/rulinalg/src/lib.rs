//! Stand-in for the `rulinalg` crate, written for /verif.
//!
//! The real crate is a git dependency and cannot be fetched in this sandbox.
//! Signatures, panics, error cases and storage layout follow rulinalg 0.4.2.
extern crate num as libnum;

#[macro_use]
pub mod macros;
pub mod error;
pub mod matrix;
pub mod norm;
pub mod utils;
pub mod vector;
pub mod ulp { pub trait Ulp {} }
