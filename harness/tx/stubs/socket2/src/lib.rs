//! The newer release under the older name.
pub use socket2_06::*;
