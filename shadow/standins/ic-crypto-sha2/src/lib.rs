//! Stand-in for dfinity/ic `ic-crypto-sha2`: SHA-256 through the `sha2` crate.
pub struct Sha256;
impl Sha256 {
    pub fn hash(data: &[u8]) -> [u8; 32] {
        use sha2::Digest;
        sha2::Sha256::digest(data).into()
    }
}
