//! Property-based checks of `openid4vci`. See ../DESIGN.md.

pub mod clock;
pub mod dict;
pub mod enc;
pub mod eval;
pub mod gen;
#[macro_use]
pub mod runner;
pub mod props;
pub mod spec;
