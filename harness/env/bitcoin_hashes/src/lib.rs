//! Model of the part of `bitcoin_hashes` that BIP-324 key derivation uses.
pub mod sha256 {
    #[derive(Clone, Copy, PartialEq, Eq, Debug)]
    pub struct Hash(());
}
pub mod hkdf {
    use core::fmt;
    use core::marker::PhantomData;
    use nd::mix::Mix;
    #[derive(Copy, Clone, Debug, PartialEq, Eq)]
    pub struct MaxLengthError {
        max: usize,
    }
    impl fmt::Display for MaxLengthError {
        fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("exceeds byte max output material limit")
        }
    }
    impl std::error::Error for MaxLengthError {}

    pub struct Hkdf<T> {
        prk: Mix,
        _t: PhantomData<T>,
    }
    impl<T> Hkdf<T> {
        pub fn new(salt: &[u8], ikm: &[u8]) -> Self {
            let mut prk = Mix::new(3);
            prk.bytes(salt);
            prk.bytes(ikm);
            Hkdf { prk, _t: PhantomData }
        }
        /// Output block i is a function of (salt, ikm, info, i) only, as in RFC 5869.
        pub fn expand(&self, info: &[u8], okm: &mut [u8]) -> Result<(), MaxLengthError> {
            if okm.len() > 255 * 32 {
                return Err(MaxLengthError { max: 255 * 32 });
            }
            let mut m = self.prk;
            m.bytes(info);
            let mut done = 0;
            while done < okm.len() {
                m.fin();
                let b = m.out32();
                let n = if okm.len() - done < 32 { okm.len() - done } else { 32 };
                okm[done..done + n].copy_from_slice(&b[..n]);
                done += n;
            }
            Ok(())
        }
        pub fn expand_to_len(&self, info: &[u8], len: usize) -> Result<Vec<u8>, MaxLengthError> {
            let mut okm = vec![0u8; len];
            self.expand(info, &mut okm)?;
            Ok(okm)
        }
    }
}
pub use hkdf::Hkdf;
