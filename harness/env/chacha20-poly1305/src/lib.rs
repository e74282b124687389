//! Model of the `chacha20-poly1305` crate for solver runs.
use core::fmt;
pub mod chacha20;
pub mod ghost;
pub use chacha20::{Key, Nonce};
use chacha20::ChaCha20;

#[derive(Copy, Clone, Debug, PartialEq, Eq)]
pub enum Error {
    UnauthenticatedAdditionalData,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("Unauthenticated aad.")
    }
}
impl std::error::Error for Error {}

pub struct ChaCha20Poly1305 {
    key: Key,
    nonce: Nonce,
}
impl ChaCha20Poly1305 {
    pub const fn new(key: Key, nonce: Nonce) -> Self {
        ChaCha20Poly1305 { key, nonce }
    }
    pub fn encrypt(self, content: &mut [u8], aad: Option<&[u8]>) -> [u8; 16] {
        ChaCha20::inside_aead(self.key, self.nonce).apply_keystream(content);
        ghost::used(1, &self.key, &self.nonce, 0);
        ghost::seal(&self.key, &self.nonce, aad.unwrap_or(&[]), content)
    }
    pub fn decrypt(self, content: &mut [u8], tag: [u8; 16], aad: Option<&[u8]>) -> Result<(), Error> {
        if ghost::open(&self.key, &self.nonce, aad.unwrap_or(&[]), content, &tag) {
            ChaCha20::inside_aead(self.key, self.nonce).apply_keystream(content);
            Ok(())
        } else {
            Err(Error::UnauthenticatedAdditionalData)
        }
    }
}
