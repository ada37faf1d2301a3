//! Values of the specification as JSON, and the comparison with what the library shows of its own.
pub mod dbg;
pub mod json;
