//! Harnesses over the protocol crate without an async runtime.
mod hs;
mod packets;
pub mod api {
    pub use bip324::io::Protocol;
    pub use common::net::{dst, src, Dst, Src};
    pub const ASYNC: bool = false;
    pub fn drain(mut r: impl std::io::Read) -> std::io::Result<Vec<u8>> {
        let mut b = vec![];
        r.read_to_end(&mut b).map(|_| b)
    }
}
mod sync;
pub const TABLES: &[&[(&str, fn())]] = &[packets::TABLE, packets::hooked::TABLE, hs::TABLE, sync::TABLE];
