//! Stand-in for dfinity/ic `ic-management-canister-types`: the ECDSA signing types.
use candid::CandidType;
use serde::{Deserialize, Serialize};
use serde_bytes::ByteBuf;

#[derive(Clone, Debug, Eq, PartialEq, Default, CandidType, Serialize, Deserialize)]
pub struct DerivationPath(Vec<ByteBuf>);
impl DerivationPath {
    pub fn new(path: Vec<ByteBuf>) -> Self {
        DerivationPath(path)
    }
}
#[derive(Clone, Copy, Debug, Eq, PartialEq, CandidType, Serialize, Deserialize)]
pub enum EcdsaCurve {
    #[serde(rename = "secp256k1")]
    Secp256k1,
}
#[derive(Clone, Debug, Eq, PartialEq, CandidType, Serialize, Deserialize)]
pub struct EcdsaKeyId {
    pub curve: EcdsaCurve,
    pub name: String,
}
#[derive(Clone, Debug, Eq, PartialEq, CandidType, Serialize, Deserialize)]
pub struct SignWithECDSAArgs {
    pub message_hash: [u8; 32],
    pub derivation_path: DerivationPath,
    pub key_id: EcdsaKeyId,
}
#[derive(Clone, Debug, Eq, PartialEq, CandidType, Serialize, Deserialize)]
pub struct SignWithECDSAReply {
    #[serde(with = "serde_bytes")]
    pub signature: Vec<u8>,
}
