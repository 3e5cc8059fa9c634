// builders of values of the minter's types
#![allow(dead_code)]
use crate::deposit_logs::{EventSource, ReceivedDepositEvent, ReceivedErc20Event, ReceivedNativeEvent};
use crate::erc20::{ERC20Token, ERC20TokenSymbol};
use crate::eth_types::Address;
use crate::evm_config::EvmNetwork;
use crate::lifecycle::InitArg;
use crate::numeric::*;
use crate::rpc_declrations::{Hash, TransactionReceipt, TransactionStatus};
use crate::state::transactions::*;
use crate::state::State;
use crate::tx::*;
use candid::{Nat, Principal};

pub fn wei(n: u128) -> Wei {
    Wei::from(n)
}
pub fn addr(n: u64) -> Address {
    let mut b = [0u8; 20];
    b[0] = 0xa0;
    b[12..].copy_from_slice(&n.to_be_bytes());
    Address::new(b)
}
pub fn hash(n: u64) -> Hash {
    let mut b = [0u8; 32];
    b[1] = 7;
    b[24..].copy_from_slice(&n.to_be_bytes());
    Hash(b)
}
pub fn principal(n: u64) -> Principal {
    let mut b = [1u8; 10];
    b[..8].copy_from_slice(&n.to_be_bytes());
    Principal::from_slice(&b)
}
pub fn init_arg() -> InitArg {
    InitArg {
        evm_network: EvmNetwork::Sepolia,
        ecdsa_key_name: "test_key_1".into(),
        helper_contract_address: Some("0x1789F79e95324A47c5Fd6693071188e82E9a3558".into()),
        native_ledger_id: principal(900),
        native_index_id: principal(901),
        native_symbol: "icTestETH".into(),
        block_height: crate::endpoints::CandidBlockTag::Latest,
        native_minimum_withdrawal_amount: Nat::from(10_000_000_000_000_000_u64),
        native_ledger_transfer_fee: Nat::from(10_000_000_000_000_u64),
        next_transaction_nonce: Nat::from(0_u8),
        last_scraped_block_number: Nat::from(3_956_206_u32),
        min_max_priority_fee_per_gas: Nat::from(1_000_000_000_u64),
        ledger_suite_manager_id: principal(902),
        deposit_native_fee: Nat::from(0_u8),
        withdrawal_native_fee: Nat::from(0_u8),
    }
}
pub fn state() -> State {
    State::try_from(init_arg()).expect("valid init arg")
}
pub fn token(n: u64) -> ERC20Token {
    ERC20Token { chain_id: EvmNetwork::Sepolia, erc20_contract_address: addr(5000 + n), erc20_token_symbol: ERC20TokenSymbol::new(format!("TOK{n}")), erc20_ledger_id: principal(5000 + n) }
}
pub fn native_request(burn: u64, amount: u128) -> NativeWithdrawalRequest {
    NativeWithdrawalRequest { withdrawal_amount: wei(amount), destination: addr(burn * 3 + 1), ledger_burn_index: LedgerBurnIndex::new(burn), from: principal(burn % 5), from_subaccount: if burn % 3 == 0 { Some(Subaccount([burn as u8; 32])) } else { None }, created_at: Some(burn * 7) }
}
pub fn erc20_request(burn: u64, erc20_burn: u64, tok: u64, fee: u128, amount: u128) -> Erc20WithdrawalRequest {
    Erc20WithdrawalRequest { max_transaction_fee: wei(fee), withdrawal_amount: Erc20Value::from(amount), destination: addr(burn * 3 + 1), native_ledger_burn_index: LedgerBurnIndex::new(burn), erc20_contract_address: addr(5000 + tok), erc20_ledger_id: principal(5000 + tok), erc20_ledger_burn_index: LedgerBurnIndex::new(erc20_burn), from: principal(burn % 5), from_subaccount: if burn % 3 == 0 { Some(Subaccount([burn as u8; 32])) } else { None }, created_at: burn * 7 }
}
pub fn fee(base: u128, prio: u128) -> GasFeeEstimate {
    GasFeeEstimate { base_fee_per_gas: WeiPerGas::from(base), max_priority_fee_per_gas: WeiPerGas::from(prio) }
}
pub fn sign(tx: Eip1559TransactionRequest, salt: u64) -> SignedEip1559TransactionRequest {
    SignedEip1559TransactionRequest::from((tx, Eip1559Signature { signature_y_parity: salt & 1 == 1, r: ethnum::u256::from(salt + 1), s: ethnum::u256::from(salt + 2) }))
}
pub fn receipt(tx: &SignedEip1559TransactionRequest, price: u128, gas: u128, ok: bool) -> TransactionReceipt {
    TransactionReceipt { block_hash: hash(99), block_number: BlockNumber::from(77_u64), effective_gas_price: WeiPerGas::from(price), gas_used: GasAmount::from(gas), status: if ok { TransactionStatus::Success } else { TransactionStatus::Failure }, transaction_hash: tx.hash() }
}
pub fn source(n: u64) -> EventSource {
    EventSource { transaction_hash: hash(n / 3), log_index: LogIndex::from(n % 3) }
}
pub fn native_event(n: u64, value: u128) -> ReceivedNativeEvent {
    let s = source(n);
    ReceivedNativeEvent { transaction_hash: s.transaction_hash, block_number: BlockNumber::from(100 + n), log_index: s.log_index, from_address: addr(n), value: wei(value), principal: principal(n % 5), subaccount: None }
}
pub fn erc20_event(n: u64, tok: u64, value: u128) -> ReceivedErc20Event {
    let s = source(n);
    ReceivedErc20Event { transaction_hash: s.transaction_hash, block_number: BlockNumber::from(100 + n), log_index: s.log_index, from_address: addr(n), value: Erc20Value::from(value), principal: principal(n % 5), erc20_contract_address: addr(5000 + tok), subaccount: None }
}
pub fn deposit(e: ReceivedNativeEvent) -> ReceivedDepositEvent {
    e.into()
}
/// any amount as an integer of the arithmetic the checks use
pub fn big<U>(x: crate::checked_amount::CheckedAmountOf<U>) -> ethnum::u256 {
    ethnum::u256::from_be_bytes(x.to_be_bytes())
}
pub fn of_big<U>(x: ethnum::u256) -> crate::checked_amount::CheckedAmountOf<U> {
    crate::checked_amount::CheckedAmountOf::from_be_bytes(x.to_be_bytes())
}
