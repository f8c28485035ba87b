//! Stand-in for the pqcrypto-dilithium crate: same interface, a transparent "signature" (a keyed mix of the message)
//! instead of lattice arithmetic. Signed messages are signature || message, as in the C reference.
pub mod dilithium5 {
    use pqcrypto_traits::sign as t;
    use pqcrypto_traits::{Error, Result};
    use std::sync::atomic::{AtomicU64, Ordering};
    const PK: usize = 2592;
    const SK: usize = 4864;
    const SIG: usize = 4595;
    pub const fn public_key_bytes() -> usize { PK }
    pub const fn secret_key_bytes() -> usize { SK }
    pub const fn signature_bytes() -> usize { SIG }
    macro_rules! fixed {
        ($n:ident, $s:expr, $tr:path) => {
            #[derive(Clone, Copy, PartialEq)]
            pub struct $n([u8; $s]);
            impl $tr for $n {
                fn as_bytes(&self) -> &[u8] { &self.0 }
                fn from_bytes(bytes: &[u8]) -> Result<Self> {
                    if bytes.len() != $s {
                        return Err(Error::BadLength { name: stringify!($n), actual: bytes.len(), expected: $s });
                    }
                    let mut a = [0u8; $s];
                    a.copy_from_slice(bytes);
                    Ok($n(a))
                }
            }
        };
    }
    fixed!(PublicKey, PK, t::PublicKey);
    fixed!(SecretKey, SK, t::SecretKey);
    #[derive(Clone, PartialEq)]
    pub struct SignedMessage(Vec<u8>);
    impl SignedMessage { pub fn len(&self) -> usize { self.0.len() } }
    impl t::SignedMessage for SignedMessage {
        fn as_bytes(&self) -> &[u8] { &self.0 }
        fn from_bytes(bytes: &[u8]) -> Result<Self> { Ok(SignedMessage(bytes.to_vec())) }
    }
    fn mix(key: &[u8], m: &[u8], out: &mut [u8]) {
        let mut h: u64 = 0xcbf29ce484222325;
        for b in key.iter().chain(m.iter()) { h = (h ^ *b as u64).wrapping_mul(0x100000001b3); }
        for (i, o) in out.iter_mut().enumerate() {
            h = (h ^ i as u64).wrapping_mul(0x9e3779b97f4a7c15).rotate_left(23);
            *o = (h >> 24) as u8;
        }
    }
    static COUNTER: AtomicU64 = AtomicU64::new(1);
    pub fn keypair() -> (PublicKey, SecretKey) {
        let n = COUNTER.fetch_add(1, Ordering::SeqCst).to_le_bytes();
        let mut pk = [0u8; PK];
        mix(b"pk", &n, &mut pk);
        let mut sk = [0u8; SK];
        mix(b"sk", &pk, &mut sk);
        (PublicKey(pk), SecretKey(sk))
    }
    pub fn sign(msg: &[u8], sk: &SecretKey) -> SignedMessage {
        let mut v = vec![0u8; SIG];
        mix(&sk.0, msg, &mut v);
        v.extend_from_slice(msg);
        SignedMessage(v)
    }
    pub fn open(sm: &SignedMessage, pk: &PublicKey) -> std::result::Result<Vec<u8>, t::VerificationError> {
        if sm.0.len() < SIG { return Err(t::VerificationError::InvalidSignature); }
        let mut sk = [0u8; SK];
        mix(b"sk", &pk.0, &mut sk);
        let mut v = vec![0u8; SIG];
        mix(&sk, &sm.0[SIG..], &mut v);
        if v[..] == sm.0[..SIG] { Ok(sm.0[SIG..].to_vec()) } else { Err(t::VerificationError::InvalidSignature) }
    }
}
