//! Test-case generator, independent reference model and report writer shared by all monitors.
//! Nothing in here depends on sscanf or on the regex crate: the model is a small backtracking
//! matcher over the generator's own description of a format, plus std's own parsing functions.
pub mod re;
pub mod report;
pub mod rng;
pub mod spec;
pub mod unesc;
pub mod gen;
pub mod defs;
pub mod plan;
pub mod rt;
pub mod lits;
pub mod bad;
pub mod binds;
pub mod cases;
pub mod exotic;
