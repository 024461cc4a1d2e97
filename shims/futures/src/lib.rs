//! The facade crate itself is not on this machine; what it re-exports is.
pub use futures_util::*;
