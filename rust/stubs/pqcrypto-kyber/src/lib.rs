//! Stand-in for the pqcrypto-kyber crate: same interface, transparent arithmetic.
pub mod kyber768 {
    use pqcrypto_traits::kem as t;
    use pqcrypto_traits::{Error, Result};
    use std::sync::atomic::{AtomicU64, Ordering};
    const PK: usize = 1184;
    const SK: usize = 2400;
    const CT: usize = 1088;
    const SS: usize = 32;
    pub const fn public_key_bytes() -> usize { PK }
    pub const fn secret_key_bytes() -> usize { SK }
    pub const fn ciphertext_bytes() -> usize { CT }
    pub const fn shared_secret_bytes() -> usize { SS }
    macro_rules! fixed {
        ($n:ident, $s:expr, $tr:path) => {
            #[derive(Clone, Copy, PartialEq)]
            pub struct $n([u8; $s]);
            impl $tr for $n {
                fn as_bytes(&self) -> &[u8] { &self.0 }
                fn from_bytes(bytes: &[u8]) -> Result<Self> {
                    if bytes.len() != $s {
                        return Err(Error::BadLength { name: stringify!($n), actual: bytes.len(), expected: $s });
                    }
                    let mut a = [0u8; $s];
                    a.copy_from_slice(bytes);
                    Ok($n(a))
                }
            }
        };
    }
    fixed!(PublicKey, PK, t::PublicKey);
    fixed!(SecretKey, SK, t::SecretKey);
    fixed!(Ciphertext, CT, t::Ciphertext);
    fixed!(SharedSecret, SS, t::SharedSecret);
    fn mix(key: &[u8], m: &[u8], out: &mut [u8]) {
        let mut h: u64 = 0xcbf29ce484222325;
        for b in key.iter().chain(m.iter()) { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); }
        for (i, o) in out.iter_mut().enumerate() {
            h = (h ^ i as u64).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
            *o = (h >> 24) as u8;
        }
    }
    static COUNTER: AtomicU64 = AtomicU64::new(1);
    pub fn keypair() -> (PublicKey, SecretKey) {
        let n = COUNTER.fetch_add(1, Ordering::SeqCst).to_le_bytes();
        let mut sk = [0u8; SK];
        mix(b"sk", &n, &mut sk);
        let mut pk = [0u8; PK];
        mix(b"pk", &sk, &mut pk);
        (PublicKey(pk), SecretKey(sk))
    }
    pub fn encapsulate(pk: &PublicKey) -> (SharedSecret, Ciphertext) {
        let n = COUNTER.fetch_add(1, Ordering::SeqCst).to_le_bytes();
        let mut ct = [0u8; CT];
        mix(b"ct", &n, &mut ct);
        let mut ss = [0u8; SS];
        mix(&pk.0, &ct, &mut ss);
        (SharedSecret(ss), Ciphertext(ct))
    }
    pub fn decapsulate(ct: &Ciphertext, sk: &SecretKey) -> SharedSecret {
        let mut pk = [0u8; PK];
        mix(b"pk", &sk.0, &mut pk);
        let mut ss = [0u8; SS];
        mix(&pk, &ct.0, &mut ss);
        SharedSecret(ss)
    }
}
