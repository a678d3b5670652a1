pub use dync;
