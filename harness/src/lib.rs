//! Specification programs. Each `pNN_...` function states obligations of property PNN for arbitrary
//! arguments; the analyser decides them from the compiled MIR, nothing here is ever executed.
#![allow(dead_code, unused_imports)]
pub mod spec;
pub mod util;
#[cfg(feature = "bits")]
pub mod bits;
#[cfg(feature = "ints")]
pub mod ints;
#[cfg(feature = "iter")]
pub mod iter;
#[cfg(feature = "rank")]
pub mod rank;
#[cfg(feature = "select")]
pub mod select;
#[cfg(feature = "shared")]
pub mod shared;
#[cfg(feature = "slices")]
pub mod slices;
#[cfg(feature = "views")]
pub mod views;
