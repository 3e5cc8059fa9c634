//! Stand-in for dfinity/ic `ic-crypto-secp256k1` over the real `k256` crate.
use k256::ecdsa::signature::hazmat::PrehashVerifier;
use k256::ecdsa::{Signature, VerifyingKey};
use k256::elliptic_curve::sec1::ToEncodedPoint;

#[derive(Clone, Debug, Eq, PartialEq)]
pub enum KeyDecodingError {
    InvalidKeyEncoding(String),
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub enum RecoveryError {
    SignatureParseError(String),
    WrongParameters(String),
}
#[derive(Clone, Debug, Eq, PartialEq)]
pub struct PublicKey {
    key: VerifyingKey,
}
#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct RecoveryId {
    recid: k256::ecdsa::RecoveryId,
}
impl RecoveryId {
    pub fn is_y_odd(&self) -> bool {
        self.recid.is_y_odd()
    }
    pub fn is_x_reduced(&self) -> bool {
        self.recid.is_x_reduced()
    }
}
impl PublicKey {
    pub fn deserialize_sec1(bytes: &[u8]) -> Result<Self, KeyDecodingError> {
        VerifyingKey::from_sec1_bytes(bytes)
            .map(|key| PublicKey { key })
            .map_err(|e| KeyDecodingError::InvalidKeyEncoding(format!("{:?}", e)))
    }
    pub fn serialize_sec1(&self, compressed: bool) -> Vec<u8> {
        self.key.as_affine().to_encoded_point(compressed).as_bytes().to_vec()
    }
    pub fn verify_signature_prehashed(&self, digest: &[u8], signature: &[u8]) -> bool {
        match Signature::try_from(signature) {
            Ok(s) => {
                let s = s.normalize_s().unwrap_or(s);
                self.key.verify_prehash(digest, &s).is_ok()
            }
            Err(_) => false,
        }
    }
    pub fn try_recovery_from_digest(
        &self,
        digest: &[u8],
        signature: &[u8],
    ) -> Result<RecoveryId, RecoveryError> {
        let s = Signature::try_from(signature)
            .map_err(|e| RecoveryError::SignatureParseError(e.to_string()))?;
        k256::ecdsa::RecoveryId::trial_recovery_from_prehash(&self.key, digest, &s)
            .map(|recid| RecoveryId { recid })
            .map_err(|e| RecoveryError::WrongParameters(e.to_string()))
    }
}
/// the key a harness signs with in the place of the management canister
pub mod host {
    use k256::ecdsa::signature::hazmat::PrehashSigner;
    use k256::ecdsa::{Signature, SigningKey};
    fn key() -> SigningKey {
        let mut b = [7u8; 32];
        b[0] = 1;
        SigningKey::from_slice(&b).unwrap()
    }
    pub fn public() -> Vec<u8> {
        use k256::elliptic_curve::sec1::ToEncodedPoint;
        key().verifying_key().as_affine().to_encoded_point(false).as_bytes().to_vec()
    }
    pub fn sign(digest: &[u8]) -> Vec<u8> {
        let s: Signature = key().sign_prehash(digest).unwrap();
        s.to_bytes().to_vec()
    }
    /// the public key (uncompressed) a signature with this parity belongs to
    pub fn recover(digest: &[u8], r: &[u8; 32], s: &[u8; 32], odd: bool) -> Option<Vec<u8>> {
        use k256::elliptic_curve::sec1::ToEncodedPoint;
        let sig = Signature::from_scalars(*r, *s).ok()?;
        let k = k256::ecdsa::VerifyingKey::recover_from_prehash(digest, &sig, k256::ecdsa::RecoveryId::new(odd, false)).ok()?;
        Some(k.as_affine().to_encoded_point(false).as_bytes().to_vec())
    }
}
