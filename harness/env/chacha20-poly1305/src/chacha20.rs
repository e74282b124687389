use crate::ghost;
#[derive(Clone, Copy)]
pub struct Key(pub(crate) [u8; 32]);
impl Key {
    pub const fn new(key: [u8; 32]) -> Self {
        Key(key)
    }
}
#[derive(Clone, Copy)]
pub struct Nonce(pub(crate) [u8; 12]);
impl Nonce {
    pub const fn new(nonce: [u8; 12]) -> Self {
        Nonce(nonce)
    }
}
pub struct ChaCha20 {
    key: Key,
    nonce: Nonce,
    block_count: u32,
    seek_offset_bytes: usize,
    /// used directly, not inside the AEAD
    raw: bool,
}
impl ChaCha20 {
    pub(crate) fn inside_aead(key: Key, nonce: Nonce) -> Self {
        let mut c = Self::new_from_block(key, nonce, 1);
        c.raw = false;
        c
    }
    pub const fn new(key: Key, nonce: Nonce, seek: u32) -> Self {
        ChaCha20 { key, nonce, block_count: seek / 64, seek_offset_bytes: (seek % 64) as usize, raw: true }
    }
    pub const fn new_from_block(key: Key, nonce: Nonce, block: u32) -> Self {
        ChaCha20 { key, nonce, block_count: block, seek_offset_bytes: 0, raw: true }
    }
    pub fn apply_keystream(&mut self, buffer: &mut [u8]) {
        if buffer.is_empty() {
            return;
        }
        let mut ks = ghost::keystream(&self.key, &self.nonce, self.block_count);
        let mut i = 0;
        if self.raw {
            for j in 0..buffer.len() as u64 {
                ghost::used(2, &self.key, &self.nonce, self.block_count as u64 * 64 + self.seek_offset_bytes as u64 + j);
            }
        }
        if ghost::sparse(buffer.len()) {
            ghost::apply_sparse(&ks, buffer);
            return;
        }
        while i < buffer.len() {
            if self.seek_offset_bytes == 64 {
                self.block_count += 1;
                self.seek_offset_bytes = 0;
                ks = ghost::keystream(&self.key, &self.nonce, self.block_count);
            }
            buffer[i] ^= ks[self.seek_offset_bytes];
            self.seek_offset_bytes += 1;
            i += 1;
        }
        if self.seek_offset_bytes == 64 {
            self.block_count += 1;
            self.seek_offset_bytes = 0;
        }
    }
    pub fn get_keystream(&self, block: u32) -> [u8; 64] {
        ghost::keystream(&self.key, &self.nonce, block)
    }
    pub fn seek(&mut self, seek: u32) {
        self.block_count = seek / 64;
        self.seek_offset_bytes = (seek % 64) as usize;
    }
    pub fn block(&mut self, block: u32) {
        self.block_count = block;
        self.seek_offset_bytes = 0;
    }
}
