//! Cipher model. Keystream and tag are mixing functions of every input. Verification of a tag is either
//! recomputation (`Func`), or, when `set_ideal(true)`, the ideal functionality: only exactly what was
//! sealed under that key and nonce opens (no forgeries).
use crate::{Key, Nonce};
use nd::mix::{le, Mix};

fn base(domain: u64, k: &Key, n: &Nonce) -> Mix {
    let mut m = Mix::new(domain);
    m.word(le(&k.0, 0));
    m.word(le(&k.0, 8));
    m.word(le(&k.0, 16));
    m.word(le(&k.0, 24));
    m.word(u32::from_le_bytes([n.0[0], n.0[1], n.0[2], n.0[3]]) as u64);
    m.word(le(&n.0, 4));
    m
}
/// 64 keystream bytes of block `b`.
pub fn keystream(k: &Key, n: &Nonce, b: u32) -> [u8; 64] {
    let mut m = base(1, k, n);
    m.word(b as u64);
    m.fin();
    let x = m.out32();
    m.fin();
    let y = m.out32();
    let mut o = [0u8; 64];
    let (l, r) = o.split_at_mut(32);
    l.copy_from_slice(&x);
    r.copy_from_slice(&y);
    o
}
pub fn tag(k: &Key, n: &Nonce, aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let mut m = base(2, k, n);
    m.bytes(aad);
    if sparse(ct.len()) {
        m.bytes(&ct[..64]);
        m.bytes(&ct[ct.len() - 64..]);
        m.word(ct.len() as u64);
    } else {
        m.bytes(ct);
    }
    m.fin();
    let x = m.out32();
    [x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8], x[9], x[10], x[11], x[12], x[13], x[14], x[15]]
}

// ---- ideal functionality -------------------------------------------------------------------------
struct Sealed {
    k: [u8; 32],
    n: [u8; 12],
    a: Vec<u8>,
    c: Vec<u8>,
    tag: [u8; 16],
}
static mut IDEAL: bool = false;
static mut LOG: Vec<Sealed> = Vec::new();
static mut ANY: bool = false;
/// From now on tags verify or not, whatever they are: a peer who knows the keys may send any plaintext.
pub fn set_any(v: bool) {
    unsafe { ANY = v }
}
/// From now on only what was sealed opens: no forgeries.
pub fn set_ideal(v: bool) {
    unsafe {
        IDEAL = v;
        LOG = Vec::new();
    }
}
pub fn seal(k: &Key, n: &Nonce, aad: &[u8], ct: &[u8]) -> [u8; 16] {
    let tag = tag(k, n, aad, ct);
    unsafe {
        if IDEAL {
            (*core::ptr::addr_of_mut!(LOG)).push(Sealed { k: k.0, n: n.0, a: aad.to_vec(), c: ct.to_vec(), tag });
        }
    }
    tag
}
pub(crate) fn open(k: &Key, n: &Nonce, aad: &[u8], ct: &[u8], t: &[u8; 16]) -> bool {
    unsafe {
        if ANY {
            return nd::u8() & 1 == 1;
        }
        if IDEAL {
            let mut ok = false;
            for e in (*core::ptr::addr_of!(LOG)).iter() {
                if e.a.len() == aad.len() && e.c.len() == ct.len() {
                    ok |= nd::eq(&e.n, &n.0) & nd::eq(&e.k, &k.0) & nd::eq(&e.tag, t) & nd::eq(&e.a, aad) & nd::eq(&e.c, ct);
                }
            }
            return ok;
        }
    }
    nd::eq(&tag(k, n, aad, ct), t)
}

// ---- record of key material use --------------------------------------------------------------------
static mut RECORD: bool = false;
/// (kind, key, nonce, position): 1 = AEAD seal, 2 = one byte of plain stream cipher output
pub static mut USES: Vec<(u8, [u8; 32], [u8; 12], u64)> = Vec::new();
pub fn record(v: bool) {
    unsafe { RECORD = v }
}
pub fn uses() -> &'static [(u8, [u8; 32], [u8; 12], u64)] {
    unsafe { &*core::ptr::addr_of!(USES) }
}
pub(crate) fn used(kind: u8, k: &Key, n: &Nonce, pos: u64) {
    unsafe {
        if RECORD {
            (*core::ptr::addr_of_mut!(USES)).push((kind, k.0, n.0, pos));
        }
    }
}

// ---- large packets ---------------------------------------------------------------------------------
static mut SPARSE: usize = usize::MAX;
/// Bodies longer than `n` are only transformed (and authenticated) in their first and last 64 bytes and
/// in their length: keeps packets of many megabytes affordable.
pub fn set_sparse(n: usize) {
    unsafe { SPARSE = n }
}
pub fn sparse(len: usize) -> bool {
    unsafe { len > SPARSE }
}
pub fn apply_sparse(ks: &[u8; 64], buffer: &mut [u8]) {
    for i in 0..64 {
        buffer[i] ^= ks[i];
    }
    let l = buffer.len() - 64;
    for i in 0..64 {
        buffer[l + i] ^= ks[i] ^ (l >> (i % 3 * 8)) as u8;
    }
}
