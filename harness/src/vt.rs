//! Tables used by the histories.
use dync::dync_mod;

#[dync_mod]
pub mod tables {
    pub trait Part: Clone + PartialEq + std::fmt::Debug {}
    impl<T> Part for T where T: Clone + PartialEq + std::fmt::Debug {}

    pub trait Full: Part + Eq + std::hash::Hash {}
    impl<T> Full for T where T: Part + Eq + std::hash::Hash {}
}
pub use tables::*;
