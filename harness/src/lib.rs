//! Generated-input checks of the `dync` crate.
#![allow(clippy::all)]

pub mod alloc;
pub mod reg;
pub mod src;
#[macro_use]
pub mod engine;
pub mod elts;
pub mod hist_copy;
pub mod views;
#[cfg(feature = "traits")]
pub mod hist_dyn;
pub mod bounds;
#[cfg(feature = "traits")]
pub mod routes;
#[cfg(feature = "traits")]
pub mod tabs;
#[cfg(feature = "traits")]
pub mod values;
#[cfg(feature = "traits")]
pub mod vt;

// Miri checks the use of memory itself, also by the layouts of blocks.
#[cfg(not(miri))]
#[global_allocator]
static ALLOC: alloc::Checking = alloc::Checking;
