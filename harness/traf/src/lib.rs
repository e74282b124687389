//! Traffic shaping over blocking I/O: the background thread under every schedule, and any random choices.
mod peer;
mod shaped;
mod stats;
pub const TABLES: &[&[(&str, fn())]] = &[shaped::TABLE, stats::TABLE];
