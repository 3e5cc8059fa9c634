//! Stand-in for dfinity/ic `icrc-ledger-client-cdk`: every call is answered by a thread-local
//! mock ledger which records the call it was given.
use candid::Principal;
use icrc_ledger_types::icrc1::transfer::{BlockIndex, TransferArg, TransferError};
use icrc_ledger_types::icrc2::transfer_from::{TransferFromArgs, TransferFromError};
use std::cell::RefCell;

pub struct CdkRuntime;
pub struct ICRC1Client<R> {
    pub runtime: R,
    pub ledger_canister_id: Principal,
}

type Reject = (i32, String);
#[derive(Clone, Debug, PartialEq)]
pub enum LedgerCall {
    Transfer(Principal, TransferArg),
    TransferFrom(Principal, TransferFromArgs),
}
pub type TransferReply = Result<Result<BlockIndex, TransferError>, Reject>;
pub type TransferFromReply = Result<Result<BlockIndex, TransferFromError>, Reject>;

/// The mock: what answers, given the ledger and the argument.
pub struct MockLedger {
    pub on_transfer: Box<dyn FnMut(Principal, &TransferArg) -> TransferReply>,
    pub on_transfer_from: Box<dyn FnMut(Principal, &TransferFromArgs) -> TransferFromReply>,
}
thread_local! {
    pub static MOCK: RefCell<Option<MockLedger>> = RefCell::new(None);
    pub static CALLS: RefCell<Vec<LedgerCall>> = RefCell::new(Vec::new());
}
pub fn install_mock(m: MockLedger) {
    MOCK.with(|c| *c.borrow_mut() = Some(m));
    CALLS.with(|c| c.borrow_mut().clear());
}
pub fn take_calls() -> Vec<LedgerCall> {
    CALLS.with(|c| std::mem::take(&mut *c.borrow_mut()))
}
impl<R> ICRC1Client<R> {
    pub async fn transfer(&self, args: TransferArg) -> TransferReply {
        CALLS.with(|c| {
            c.borrow_mut().push(LedgerCall::Transfer(self.ledger_canister_id, args.clone()))
        });
        let mut m = MOCK.with(|m| m.borrow_mut().take()).expect("no mock ledger installed");
        let r = (m.on_transfer)(self.ledger_canister_id, &args);
        MOCK.with(|c| *c.borrow_mut() = Some(m));
        r
    }
    pub async fn transfer_from(&self, args: TransferFromArgs) -> TransferFromReply {
        CALLS.with(|c| {
            c.borrow_mut().push(LedgerCall::TransferFrom(self.ledger_canister_id, args.clone()))
        });
        let mut m = MOCK.with(|m| m.borrow_mut().take()).expect("no mock ledger installed");
        let r = (m.on_transfer_from)(self.ledger_canister_id, &args);
        MOCK.with(|c| *c.borrow_mut() = Some(m));
        r
    }
}
