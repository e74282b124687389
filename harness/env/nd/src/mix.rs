//! A small sponge over GF(2): every crypto primitive of the environment is one of these functions of
//! all of its inputs. It is stateless (no tables, so no path merging in symbolic execution), injective
//! on any single 64-bit input word, and solver-friendly (xor and rotation by whole bytes only).
#[derive(Clone, Copy, PartialEq, Eq)]
pub struct Mix(pub [u64; 4]);
impl Mix {
    #[inline]
    pub const fn new(domain: u64) -> Mix {
        Mix([domain ^ 0x9e37_79b9_7f4a_7c15, 0xc2b2_ae3d_27d4_eb4f, 0x1656_67b1_9e37_79f9, 0x85eb_ca77_c2b2_ae63])
    }
    #[inline]
    pub fn word(&mut self, w: u64) {
        let [a, b, c, d] = self.0;
        let a = a ^ w;
        self.0 = [d.rotate_left(16) ^ a.rotate_left(8), a.rotate_left(32) ^ b, b.rotate_left(40) ^ c, c ^ a.rotate_left(24)];
    }
    pub fn bytes(&mut self, d: &[u8]) {
        let mut i = 0;
        while i + 8 <= d.len() {
            self.word(le(d, i));
            i += 8;
        }
        if i < d.len() {
            let mut t = [0u8; 8];
            t[..d.len() - i].copy_from_slice(&d[i..]);
            self.word(u64::from_le_bytes(t));
        }
        self.word(d.len() as u64 ^ 0x5a00_0000_0000_0000);
    }
    #[inline]
    pub fn w32(&mut self, k: &[u8; 32]) {
        self.word(le(k, 0));
        self.word(le(k, 8));
        self.word(le(k, 16));
        self.word(le(k, 24));
    }
    /// Spread every input bit over all lanes.
    #[inline]
    pub fn fin(&mut self) {
        self.word(1);
        self.word(2);
        self.word(3);
        self.word(4);
        self.word(5);
        self.word(6);
        self.word(7);
    }
    pub fn out32(&self) -> [u8; 32] {
        let (a, b, c, d) = (self.0[0].to_le_bytes(), self.0[1].to_le_bytes(), self.0[2].to_le_bytes(), self.0[3].to_le_bytes());
        [
            a[0], a[1], a[2], a[3], a[4], a[5], a[6], a[7], b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7], c[0], c[1],
            c[2], c[3], c[4], c[5], c[6], c[7], d[0], d[1], d[2], d[3], d[4], d[5], d[6], d[7],
        ]
    }
}
#[inline]
pub fn le(b: &[u8], i: usize) -> u64 {
    u64::from_le_bytes([b[i], b[i + 1], b[i + 2], b[i + 3], b[i + 4], b[i + 5], b[i + 6], b[i + 7]])
}
