//@ in src/main.rs as crate::canister_main
// every task and withdrawal is under its guard during each of its calls to other canisters, and free afterwards
use super::*;
use crate::state::audit::{apply_state_transition, EventType};
use crate::state::{State, TaskType, STATE};
use crate::vh::{block_on, catch, Run};
use crate::vhb;
use candid::{Nat, Principal};
use icrc_ledger_client_cdk::{install_mock, MockLedger};
use std::cell::RefCell;
use std::rc::Rc;

pub fn run(r: &mut Run) {
    r.repeat(120, 4000, one);
}

fn held(s: &State) -> (Vec<String>, Vec<Principal>) {
    let mut t: Vec<String> = s.active_tasks.iter().map(|t| format!("{t:?}")).collect();
    t.sort();
    (t, s.pending_withdrawal_principals.iter().copied().collect())
}

fn one(r: &mut Run) {
    let mut s = vhb::state();
    s.record_add_erc20_token(vhb::token(1));
    s.helper_contract_address = Some(vhb::addr(77));
    s.ecdsa_public_key = Some(ic_cdk::api::management_canister::ecdsa::EcdsaPublicKeyResponse { public_key: ic_crypto_secp256k1::host::public(), chain_code: vec![] });
    s.native_minimum_withdrawal_amount = vhb::wei(10);
    s.native_ledger_transfer_fee = vhb::wei(1);
    s.withdrawal_native_fee = if r.rng.bool() { Some(vhb::wei(5)) } else { None };
    let now = 1_800_000_000_000_000_000i64;
    ic0::host::TIME.with(|t| t.set(now));
    let kind = 1 + r.rng.below(5);
    let fresh = kind >= 4 || r.rng.bool();
    if fresh { s.last_transaction_price_estimate = Some((now as u64, vhb::fee(3, 2))); }
    for n in 0..1 + r.rng.below(3) {
        apply_state_transition(&mut s, &EventType::AcceptedDeposit(vhb::native_event(n, 1000)));
        s.withdrawal_transactions.record_withdrawal_request(vhb::native_request(100 + n, 1_000_000));
        apply_state_transition(&mut s, &EventType::FailedErc20WithdrawalRequest(crate::state::transactions::ReimbursementRequest { ledger_burn_index: crate::numeric::LedgerBurnIndex::new(500 + n), reimbursed_amount: 5u64.into(), to: vhb::principal(1), to_subaccount: None, transaction_hash: None }));
    }
    let caller = vhb::principal(3);
    // others are at work too, and stay so
    let other = vhb::principal(4);
    s.pending_withdrawal_principals.insert(other);
    s.active_tasks.insert(TaskType::MintErc20);
    let before = held(&s);
    STATE.with(|c| *c.borrow_mut() = Some(s));
    ic0::host::CALLER.with(|c| *c.borrow_mut() = caller.as_slice().to_vec());
    let (mine, what) = match kind { 1 => (Some(TaskType::ScrapLogs), "scrape_logs"), 2 => (Some(TaskType::Reimbursement), "process_reimbursement"), 3 => (Some(TaskType::RetrieveEth), "process_retrieve_tokens_requests"), 4 => (None, "withdraw_native_token"), _ => (None, "withdraw_erc20") };
    let mut want = before.clone();
    match mine { Some(t) => { want.0.push(format!("{t:?}")); want.0.sort() } None => { want.1.push(caller); want.1.sort() } }
    let seen: Rc<RefCell<Vec<(String, bool)>>> = Default::default();
    let look = { let (seen, want) = (seen.clone(), want.clone()); move |m: &str| {
        let h = STATE.with(|c| held(c.borrow().as_ref().unwrap()));
        // the price of gas is refreshed under a task of its own
        let mut w = want.clone();
        if m == "eth_feeHistory" { w.0.push("RefreshGasFeeEstimate".into()); w.0.sort(); }
        seen.borrow_mut().push((m.to_string(), h == w));
    } };
    let fail = 1 + r.rng.below(4);
    let ans: Vec<bool> = (0..20).map(|_| r.rng.chance(fail)).collect();
    let trap = r.rng.chance(4);
    let (l1, l2, l3) = (look.clone(), look.clone(), look);
    let (mut i, mut j, a2) = (0usize, 0u64, ans.clone());
    install_mock(MockLedger {
        on_transfer: Box::new(move |_, _| { l1("icrc1_transfer"); i += 1; if trap && i == 2 { return Ok(Ok(Nat::from(u64::MAX) + Nat::from(1u8))); } if ans[i % 20] { Err((2, "no".into())) } else { Ok(Ok(Nat::from(i as u64))) } }),
        on_transfer_from: Box::new(move |_, _| { l2("icrc2_transfer_from"); j += 1; if trap && j == 2 { return Ok(Ok(Nat::from(u64::MAX) + Nat::from(1u8))); } if a2[j as usize % 20] && j > 1 { Err((2, "no".into())) } else { Ok(Ok(Nat::from(7000 + j))) } }),
    });
    ic0::host::on_call(Box::new(move |c| {
        l3(&c.method);
        let u = |n: u64| evm_rpc_types::Nat256::from(n);
        match c.method.as_str() {
            "eth_getTransactionCount" => Ok(candid::encode_one(evm_rpc_types::MultiRpcResult::Consistent(Ok(u(0)))).unwrap()),
            "eth_feeHistory" => Ok(candid::encode_one(evm_rpc_types::MultiRpcResult::Consistent(Ok(evm_rpc_types::FeeHistory { oldest_block: u(3), base_fee_per_gas: vec![u(1), u(2)], gas_used_ratio: vec![0.5], reward: vec![vec![u(3)]] }))).unwrap()),
            "sign_with_ecdsa" => {
                let (a,): (ic_management_canister_types::SignWithECDSAArgs,) = candid::decode_args(&c.args).unwrap();
                Ok(candid::encode_one(&ic_management_canister_types::SignWithECDSAReply { signature: ic_crypto_secp256k1::host::sign(&a.message_hash) }).unwrap())
            }
            _ => Err((2, "unavailable".into())),
        }
    }));
    let out = catch(|| match kind {
        1 => block_on(crate::deposit::scrape_logs()),
        2 => block_on(crate::withdraw::process_reimbursement()),
        3 => block_on(crate::withdraw::process_retrieve_tokens_requests()),
        4 => { let _ = block_on(withdraw_native_token(WithdrawalArg { amount: Nat::from(50u8), recipient: vhb::addr(9).to_string() })); }
        _ => { let _ = block_on(withdraw_erc20(WithdrawErc20Arg { amount: Nat::from(50u8), erc20_ledger_id: vhb::principal(5001), recipient: vhb::addr(9).to_string() })); }
    });
    let after = STATE.with(|c| held(c.borrow().as_ref().unwrap()));
    let calls = seen.borrow().clone();
    let show = || format!("{what}: calls (held during them) {calls:?}, held before {before:?}, after {after:?}, result {out:?}");
    r.case(show());
    r.check(calls.iter().all(|c| c.1), "not under its guard during a call to another canister", show);
    r.check(after == before, "the guard is not released at the end, or another one is", show);
    r.check(!calls.is_empty(), "the work there is to do is not begun", show);
}
