//! Stand-in for futures.
pub use futures_util::*;
