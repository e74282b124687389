//! Model of the part of `secp256k1` that the BIP-324 handshake uses.
use core::fmt;
use core::marker::PhantomData;

#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Error {
    InvalidPublicKey,
    InvalidSecretKey,
    InvalidEllSwift,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("secp: malformed or out-of-range key")
    }
}
impl std::error::Error for Error {}

pub struct SignOnly(());
pub struct VerifyOnly(());
pub struct All(());
pub trait Context {}
pub trait Signing: Context {}
pub trait Verification: Context {}
impl Context for SignOnly {}
impl Context for VerifyOnly {}
impl Context for All {}
impl Signing for SignOnly {}
impl Signing for All {}
impl Verification for VerifyOnly {}
impl Verification for All {}
pub struct Secp256k1<C: Context>(PhantomData<C>);
impl Secp256k1<SignOnly> {
    pub fn signing_only() -> Self {
        Secp256k1(PhantomData)
    }
}
impl Secp256k1<All> {
    pub fn new() -> Self {
        Secp256k1(PhantomData)
    }
}

#[derive(Copy, Clone, PartialEq, Eq)]
pub struct SecretKey([u8; 32]);
const ORDER: [u8; 32] = [
    0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc,
    0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41,
];
impl SecretKey {
    pub fn from_slice(data: &[u8]) -> Result<SecretKey, Error> {
        if data.len() != 32 {
            return Err(Error::InvalidSecretKey);
        }
        let be = |b: &[u8], i: usize| {
            u128::from_be_bytes([
                b[i], b[i + 1], b[i + 2], b[i + 3], b[i + 4], b[i + 5], b[i + 6], b[i + 7], b[i + 8], b[i + 9],
                b[i + 10], b[i + 11], b[i + 12], b[i + 13], b[i + 14], b[i + 15],
            ])
        };
        let (h, l) = (be(data, 0), be(data, 16));
        let (oh, ol) = (be(&ORDER, 0), be(&ORDER, 16));
        if (h == 0 && l == 0) || h > oh || (h == oh && l >= ol) {
            return Err(Error::InvalidSecretKey);
        }
        let mut o = [0u8; 32];
        o.copy_from_slice(data);
        Ok(SecretKey(o))
    }
    pub fn new<R: rand::Rng + ?Sized>(r: &mut R) -> SecretKey {
        loop {
            let mut b = [0; 32];
            r.fill_bytes(&mut b);
            if let Ok(k) = SecretKey::from_slice(&b) {
                return k;
            }
        }
    }
    pub fn secret_bytes(&self) -> [u8; 32] {
        self.0
    }
}
impl AsRef<[u8; 32]> for SecretKey {
    fn as_ref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl std::ops::Deref for SecretKey {
    type Target = [u8; 32];
    fn deref(&self) -> &[u8; 32] {
        &self.0
    }
}
impl fmt::Debug for SecretKey {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("SecretKey(#)")
    }
}
/// A public key is modelled by the scalar it belongs to.
#[derive(Copy, Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct PublicKey([u8; 32]);
impl PublicKey {
    pub fn from_secret_key<C: Signing>(_: &Secp256k1<C>, sk: &SecretKey) -> PublicKey {
        PublicKey(sk.0)
    }
}

pub mod ellswift {
    use super::*;
    use nd::mix::{le, Mix};
    /// Wire encoding. Honest encodings are an injective image of the public key: the scalar with the
    /// first byte of each half offset, second half complemented.
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct ElligatorSwift([u8; 64]);
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub enum ElligatorSwiftParty {
        A,
        B,
    }
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct ElligatorSwiftSharedSecret([u8; 32]);
    impl ElligatorSwiftSharedSecret {
        pub const fn from_secret_bytes(bytes: [u8; 32]) -> Self {
            Self(bytes)
        }
        pub const fn to_secret_bytes(self) -> [u8; 32] {
            self.0
        }
        pub const fn as_secret_bytes(&self) -> &[u8; 32] {
            &self.0
        }
    }
    fn enc(sk: &[u8; 32]) -> [u8; 64] {
        let mut o = [0u8; 64];
        let mut i = 0;
        while i < 32 {
            o[i] = sk[i];
            o[32 + i] = !sk[i];
            i += 1;
        }
        o
    }
    impl ElligatorSwift {
        pub fn from_array(a: [u8; 64]) -> Self {
            ElligatorSwift(a)
        }
        pub fn to_array(&self) -> [u8; 64] {
            self.0
        }
        pub fn from_pubkey(pk: PublicKey) -> Self {
            ElligatorSwift(enc(&pk.0))
        }
        pub fn from_seckey<C: Verification>(_: &Secp256k1<C>, sk: SecretKey, _aux: Option<[u8; 32]>) -> Self {
            ElligatorSwift(enc(&sk.0))
        }
        pub fn shared_secret(
            a: ElligatorSwift,
            b: ElligatorSwift,
            sk: SecretKey,
            party: ElligatorSwiftParty,
            _data: Option<&[u8]>,
        ) -> ElligatorSwiftSharedSecret {
            let theirs = match party {
                ElligatorSwiftParty::A => b.0,
                ElligatorSwiftParty::B => a.0,
            };
            ElligatorSwiftSharedSecret(xdh(&a.0, &b.0, &enc(&sk.0), &theirs))
        }
    }
    /// x-only ECDH followed by the BIP-324 hash: a function of (a, b) and of the unordered pair
    /// {own point, their point}. (The real hash function ignores the extra data argument too.)
    fn xdh(a: &[u8; 64], b: &[u8; 64], own: &[u8; 64], theirs: &[u8; 64]) -> [u8; 32] {
        let point = |p: &[u8; 64]| {
            let mut m = Mix::new(4);
            absorb64(&mut m, p);
            m.fin();
            m.0
        };
        let (p, q) = (point(own), point(theirs));
        let mut m = Mix::new(5);
        absorb64(&mut m, a);
        absorb64(&mut m, b);
        m.word(p[0] ^ q[0]);
        m.word(p[1] ^ q[1]);
        m.word(p[2] ^ q[2]);
        m.word(p[3] ^ q[3]);
        m.fin();
        m.out32()
    }
    fn absorb64(m: &mut Mix, p: &[u8; 64]) {
        m.word(le(p, 0));
        m.word(le(p, 8));
        m.word(le(p, 16));
        m.word(le(p, 24));
        m.word(le(p, 32));
        m.word(le(p, 40));
        m.word(le(p, 48));
        m.word(le(p, 56));
    }
}

pub mod rand {
    static mut SEED: [u8; 32] = [0x11; 32];
    /// What the operating system's randomness amounts to: the harness chooses the secret key.
    pub fn set_seed(s: [u8; 32]) {
        unsafe { SEED = s }
    }
    fn seed() -> [u8; 32] {
        unsafe { SEED }
    }
    #[derive(Debug, Clone, Copy)]
    pub struct Error;
    pub trait RngCore {
        fn next_u32(&mut self) -> u32;
        fn next_u64(&mut self) -> u64;
        fn fill_bytes(&mut self, dest: &mut [u8]);
        fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), Error> {
            self.fill_bytes(dest);
            Ok(())
        }
    }
    impl<R: RngCore + ?Sized> RngCore for &mut R {
        fn next_u32(&mut self) -> u32 { (**self).next_u32() }
        fn next_u64(&mut self) -> u64 { (**self).next_u64() }
        fn fill_bytes(&mut self, dest: &mut [u8]) { (**self).fill_bytes(dest) }
    }
    pub trait Standard {
        fn any<R: RngCore + ?Sized>(r: &mut R) -> Self;
    }
    impl Standard for u8 {
        fn any<R: RngCore + ?Sized>(r: &mut R) -> u8 { r.next_u32() as u8 }
    }
    impl Standard for u32 {
        fn any<R: RngCore + ?Sized>(r: &mut R) -> u32 { r.next_u32() }
    }
    impl Standard for u64 {
        fn any<R: RngCore + ?Sized>(r: &mut R) -> u64 { r.next_u64() }
    }
    impl<const N: usize> Standard for [u8; N] {
        fn any<R: RngCore + ?Sized>(r: &mut R) -> [u8; N] {
            let mut a = [0; N];
            r.fill_bytes(&mut a);
            a
        }
    }
    pub trait Rng: RngCore {
        fn gen<T: Standard>(&mut self) -> T { T::any(self) }
        fn fill(&mut self, d: &mut [u8]) { self.fill_bytes(d) }
    }
    impl<R: RngCore + ?Sized> Rng for R {}
    pub trait CryptoRng {}
    pub trait SeedableRng: Sized {
        type Seed: Default + AsMut<[u8]>;
        fn from_seed(seed: Self::Seed) -> Self;
        fn seed_from_u64(x: u64) -> Self {
            let mut s = Self::Seed::default();
            for (i, b) in s.as_mut().iter_mut().enumerate() { *b = x.to_le_bytes()[i % 8] ^ i as u8; }
            Self::from_seed(s)
        }
        fn from_entropy() -> Self;
        fn from_rng<R: RngCore>(r: R) -> Result<Self, Error>;
    }
    pub mod rngs {
        /// What they return follows from the seed, or is fresh.
        macro_rules! imp { ($t:ident) => {
            #[derive(Clone, Debug)]
            pub struct $t(pub(super) Option<[u8; 32]>);
            impl super::RngCore for $t {
                fn next_u32(&mut self) -> u32 { u32::from_le_bytes([self.0.unwrap_or(super::seed())[0]; 4]) }
                fn next_u64(&mut self) -> u64 { u64::from_le_bytes([self.0.unwrap_or(super::seed())[0]; 8]) }
                fn fill_bytes(&mut self, dest: &mut [u8]) {
                    let s = self.0.unwrap_or(super::seed());
                    for (i, d) in dest.iter_mut().enumerate() { *d = s[i % 32]; }
                }
            }
            impl super::CryptoRng for $t {}
        } }
        imp!(StdRng);
        imp!(ThreadRng);
        imp!(OsRng_);
        #[derive(Clone, Copy, Debug, Default)]
        pub struct OsRng;
        impl super::RngCore for OsRng {
            fn next_u32(&mut self) -> u32 { OsRng_(None).next_u32() }
            fn next_u64(&mut self) -> u64 { OsRng_(None).next_u64() }
            fn fill_bytes(&mut self, dest: &mut [u8]) { OsRng_(None).fill_bytes(dest) }
        }
        impl super::CryptoRng for OsRng {}
        impl super::SeedableRng for StdRng {
            type Seed = [u8; 32];
            fn from_seed(s: [u8; 32]) -> Self { StdRng(Some(s)) }
            fn from_entropy() -> Self { StdRng(None) }
            fn from_rng<R: super::RngCore>(mut r: R) -> Result<Self, super::Error> {
                let mut s = [0; 32];
                r.fill_bytes(&mut s);
                Ok(StdRng(Some(s)))
            }
        }
    }
    pub fn thread_rng() -> rngs::ThreadRng { rngs::ThreadRng(None) }
    pub fn random<T: Standard>() -> T { T::any(&mut thread_rng()) }
}
