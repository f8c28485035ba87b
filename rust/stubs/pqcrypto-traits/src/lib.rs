//! Stand-in for the pqcrypto-traits crate (not available offline): the same public interface.
use std::fmt;
#[derive(Debug, Copy, Clone, PartialEq, Eq)]
#[non_exhaustive]
pub enum Error {
    BadLength { name: &'static str, actual: usize, expected: usize },
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::BadLength { name, actual, expected } => write!(f, "error: {} expected {} bytes, got {}", name, expected, actual),
        }
    }
}
impl std::error::Error for Error {}
pub type Result<T> = std::result::Result<T, Error>;
pub mod sign {
    use super::Result;
    use std::fmt;
    pub trait PublicKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(bytes: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SecretKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(bytes: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SignedMessage { fn as_bytes(&self) -> &[u8]; fn from_bytes(bytes: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait DetachedSignature { fn as_bytes(&self) -> &[u8]; fn from_bytes(bytes: &[u8]) -> Result<Self> where Self: Sized; }
    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
    #[non_exhaustive]
    pub enum VerificationError { InvalidSignature, UnknownVerificationError }
    impl fmt::Display for VerificationError {
        fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "error: verification failed") }
    }
    impl std::error::Error for VerificationError {}
}
pub mod kem {
    use super::Result;
    pub trait PublicKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(bytes: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SecretKey { fn as_bytes(&self) -> &[u8]; fn from_bytes(bytes: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait Ciphertext { fn as_bytes(&self) -> &[u8]; fn from_bytes(bytes: &[u8]) -> Result<Self> where Self: Sized; }
    pub trait SharedSecret { fn as_bytes(&self) -> &[u8]; fn from_bytes(bytes: &[u8]) -> Result<Self> where Self: Sized; }
}
