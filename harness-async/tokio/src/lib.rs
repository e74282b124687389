//! tokio with another runtime: every task is a thread of its own, so that tasks run in any order and in parallel, as
//! on the multi-threaded runtime; timers and `select!`'s choice are up to the executor. Channels, I/O traits and
//! adapters, and `select!` itself are tokio's own.
pub use real::{count, count_field, io, join, pin, select_priv_clean_pattern, select_priv_declare_output_enum, select_variant, sync, try_join};
#[macro_use]
mod select;
pub mod macros {
    pub mod support {
        pub use real::macros::support::*;
        /// Where `select!` starts: anywhere.
        pub fn thread_rng_n(n: u32) -> u32 {
            nd::choose(n as u64) as u32
        }
    }
}
pub mod model;
pub mod runtime;
pub mod task;
pub mod time;
pub use task::spawn;
