//! Harnesses over the async interface of the protocol crate, on tokio's own I/O traits and adapters.
pub mod api;
#[path = "../../proto/src/sync.rs"]
mod sync;
mod tasks;
pub const TABLES: &[&[(&str, fn())]] = &[sync::TABLE, tasks::TABLE];
