#![allow(clippy::all)]
pub mod circuit;
pub mod coins;
pub mod curves;
pub mod gadget;
pub mod oracle;
pub mod raw;
pub mod rel;
pub mod stmts;
pub mod report;
pub use report::{guarded, Ctx};
pub mod levels;
