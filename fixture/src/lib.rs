//! Declarations and clients the analyses run over; never executed.
#[rustfmt::skip]
mod decls;
pub use decls::*;
pub mod clients;
pub mod walks;
pub mod access;
