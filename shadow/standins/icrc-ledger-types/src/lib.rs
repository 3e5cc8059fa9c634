//! Stand-in for dfinity/ic `icrc-ledger-types` (ICRC-1 / ICRC-2 interface types).
pub mod icrc1 {
    pub mod account {
        use candid::{CandidType, Principal};
        use serde::{Deserialize, Serialize};
        use std::cmp::Ordering;
        use std::hash::{Hash, Hasher};
        pub type Subaccount = [u8; 32];
        pub const DEFAULT_SUBACCOUNT: &Subaccount = &[0; 32];
        #[derive(Clone, Copy, Debug, CandidType, Serialize, Deserialize)]
        pub struct Account {
            pub owner: Principal,
            pub subaccount: Option<Subaccount>,
        }
        impl Account {
            pub fn effective_subaccount(&self) -> &Subaccount {
                self.subaccount.as_ref().unwrap_or(DEFAULT_SUBACCOUNT)
            }
        }
        impl PartialEq for Account {
            fn eq(&self, o: &Self) -> bool {
                self.owner == o.owner && self.effective_subaccount() == o.effective_subaccount()
            }
        }
        impl Eq for Account {}
        impl PartialOrd for Account {
            fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
                Some(self.cmp(o))
            }
        }
        impl Ord for Account {
            fn cmp(&self, o: &Self) -> Ordering {
                self.owner
                    .cmp(&o.owner)
                    .then_with(|| self.effective_subaccount().cmp(o.effective_subaccount()))
            }
        }
        impl Hash for Account {
            fn hash<H: Hasher>(&self, s: &mut H) {
                self.owner.hash(s);
                self.effective_subaccount().hash(s);
            }
        }
        impl std::fmt::Display for Account {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{}.{:?}", self.owner, self.subaccount)
            }
        }
        impl From<Principal> for Account {
            fn from(owner: Principal) -> Self {
                Self { owner, subaccount: None }
            }
        }
    }
    pub mod transfer {
        use super::account::{Account, Subaccount};
        use candid::{CandidType, Nat};
        use serde::{Deserialize, Serialize};
        use serde_bytes::ByteBuf;
        pub type NumTokens = Nat;
        pub type BlockIndex = Nat;
        #[derive(Clone, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Hash, CandidType, Serialize, Deserialize)]
        #[serde(transparent)]
        pub struct Memo(pub ByteBuf);
        impl From<u64> for Memo {
            fn from(n: u64) -> Self {
                Self(ByteBuf::from(n.to_be_bytes().to_vec()))
            }
        }
        impl From<Vec<u8>> for Memo {
            fn from(b: Vec<u8>) -> Self {
                Self(ByteBuf::from(b))
            }
        }
        impl From<ByteBuf> for Memo {
            fn from(b: ByteBuf) -> Self {
                Self(b)
            }
        }
        #[derive(Clone, Debug, PartialEq, Eq, CandidType, Serialize, Deserialize)]
        pub struct TransferArg {
            pub from_subaccount: Option<Subaccount>,
            pub to: Account,
            pub fee: Option<NumTokens>,
            pub created_at_time: Option<u64>,
            pub memo: Option<Memo>,
            pub amount: NumTokens,
        }
        #[derive(Clone, Debug, PartialEq, Eq, CandidType, Serialize, Deserialize)]
        pub enum TransferError {
            BadFee { expected_fee: NumTokens },
            BadBurn { min_burn_amount: NumTokens },
            InsufficientFunds { balance: NumTokens },
            TooOld,
            CreatedInFuture { ledger_time: u64 },
            TemporarilyUnavailable,
            Duplicate { duplicate_of: BlockIndex },
            GenericError { error_code: Nat, message: String },
        }
        impl std::fmt::Display for TransferError {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                write!(f, "{:?}", self)
            }
        }
    }
}
pub mod icrc2 {
    pub mod transfer_from {
        use crate::icrc1::account::{Account, Subaccount};
        use crate::icrc1::transfer::{BlockIndex, Memo, NumTokens};
        use candid::{CandidType, Nat};
        use serde::{Deserialize, Serialize};
        #[derive(Clone, Debug, PartialEq, Eq, CandidType, Serialize, Deserialize)]
        pub struct TransferFromArgs {
            pub spender_subaccount: Option<Subaccount>,
            pub from: Account,
            pub to: Account,
            pub amount: NumTokens,
            pub fee: Option<NumTokens>,
            pub memo: Option<Memo>,
            pub created_at_time: Option<u64>,
        }
        #[derive(Clone, Debug, PartialEq, Eq, CandidType, Serialize, Deserialize)]
        pub enum TransferFromError {
            BadFee { expected_fee: NumTokens },
            BadBurn { min_burn_amount: NumTokens },
            InsufficientFunds { balance: NumTokens },
            InsufficientAllowance { allowance: NumTokens },
            TooOld,
            CreatedInFuture { ledger_time: u64 },
            Duplicate { duplicate_of: BlockIndex },
            TemporarilyUnavailable,
            GenericError { error_code: Nat, message: String },
        }
    }
}
