//@ in src/deposit.rs as crate::deposit
// mint() against a mock ledger: random deposits, fees and ledger answers, over several runs
use crate::vh::{catch, Run};
use crate::vhb::*;
use crate::deposit_logs::{EventSource, ReceivedDepositEvent};
use crate::state::audit::apply_state_transition;
use crate::state::event::EventType;
use crate::state::{InvalidEventReason, TaskType, STATE};
use candid::{Nat, Principal};
use icrc_ledger_client_cdk::{install_mock, take_calls, LedgerCall, MockLedger};
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc1::transfer::TransferError;
use std::collections::BTreeMap;

pub fn run(r: &mut Run) {
    r.repeat(60, 4000, one);
}
fn one(r: &mut Run) {
    let mut s = state();
    let fee = if r.rng.chance(3) { None } else { Some(1 + r.rng.below(50) as u128) };
    s.deposit_native_fee = fee.map(wei);
    for n in 1..3 {
        s.record_add_erc20_token(token(n));
    }
    let mut value: BTreeMap<EventSource, (ReceivedDepositEvent, Principal, Nat)> = BTreeMap::new();
    let n = 1 + r.rng.below(4);
    for k in 0..n {
        let id = r.rng.below(40);
        if value.contains_key(&source(id)) {
            continue;
        }
        let v = r.rng.below(100) as u128;
        let sub = if r.rng.bool() { crate::deposit_logs::LedgerSubaccount::from_bytes([k as u8 + 1; 32]) } else { None };
        if r.rng.bool() {
            let mut e = native_event(id, v);
            e.subaccount = sub;
            apply_state_transition(&mut s, &EventType::AcceptedDeposit(e.clone()));
            value.insert(source(id), (e.into(), s.native_ledger_id, Nat::from(v)));
        } else {
            let t = 1 + r.rng.below(2);
            let mut e = erc20_event(id, t, v);
            e.subaccount = sub;
            apply_state_transition(&mut s, &EventType::AcceptedErc20Deposit(e.clone()));
            value.insert(source(id), (e.into(), principal(5000 + t), Nat::from(v)));
        }
    }
    let fmt = format!("fee={fee:?} deposits={:?}", value.values().collect::<Vec<_>>());
    r.case(&fmt);
    let me = Principal::from_slice(&ic0::host::this());
    let native = s.native_ledger_id;
    STATE.with(|c| *c.borrow_mut() = Some(s));
    let mut done: BTreeMap<EventSource, u64> = BTreeMap::new();
    let mut hist = fmt.clone();
    let mut block = 100;
    for _run in 0..3 {
        // one answer per deposit and run: 0 block index, 1 ledger error, 2 rejected call, 3 block index beyond u64 (traps afterwards)
        let ans: Vec<u64> = (0..20).map(|_| if r.rng.chance(2) { 0 } else { r.rng.below(4) }).collect();
        let a2 = ans.clone();
        let mut i = 0;
        let b0 = block;
        install_mock(MockLedger {
            on_transfer: Box::new(move |_, _| {
                i += 1;
                match a2[(i - 1) % 20] {
                    0 => Ok(Ok(Nat::from(b0 + i as u64))),
                    1 => Ok(Err(TransferError::TemporarilyUnavailable)),
                    2 => Err((2, "rejected".into())),
                    _ => Ok(Ok(Nat::from(u64::MAX) + Nat::from(1u8 + i as u8))),
                }
            }),
            on_transfer_from: Box::new(|_, _| panic!("no transfer_from while minting")),
        });
        let before = STATE.with(|c| c.borrow().clone().unwrap());
        let out = catch(|| crate::vh::block_on(super::mint()));
        let calls = take_calls();
        let after = STATE.with(|c| c.borrow().clone().unwrap());
        hist += &format!(" | answers={:?} trapped={}", &ans[..calls.len().min(20)], out.is_err());
        let h = || hist.clone();
        r.check(out.is_ok() || !calls.is_empty(), "a deposit that cannot be minted blocks all others: mint traps before any ledger call", h);
        if out.is_err() && calls.is_empty() {
            return;
        }
        let mut left = before.events_to_mint.clone();
        let mut k = 0;
        let mut last = None;
        while k < calls.len() {
            let LedgerCall::Transfer(ledger, arg) = &calls[k] else { r.check(false, "only transfers", h); return };
            let found = left.iter().find(|(src, e)| {
                let (_, l, v) = &value[src];
                let native = matches!(e, ReceivedDepositEvent::Native(_));
                let amount = if native { fee.map(|f| v.clone() + Nat::from(0u8) >= Nat::from(f)).unwrap_or(true).then(|| v.clone() - fee.map(Nat::from).unwrap_or(Nat::from(0u8))) } else { Some(v.clone()) };
                l == ledger && amount.as_ref() == Some(&arg.amount) && arg.to == Account { owner: e.principal(), subaccount: e.subaccount() } && arg.memo == Some((*e).into())
            }).map(|(a, b)| (*a, b.clone()));
            let Some((src, e)) = found else {
                r.check(false, "a mint is not for a waiting deposit, or not to its account, of its ledger and amount", || format!("{} call={:?}", hist, calls[k]));
                return;
            };
            left.remove(&src);
            r.check(!done.contains_key(&src), "a deposit is minted twice", h);
            let a = ans[k % 20];
            k += 1;
            if a == 3 {
                last = Some(src);
                done.insert(src, u64::MAX);
                r.check(k == calls.len() && out.is_err(), "no further calls after a trap", h);
                break;
            }
            if a == 0 {
                done.insert(src, b0 + k as u64);
                let m = after.minted_events.get(&src);
                r.check(m.is_some_and(|m| m.mint_block_index.get() == b0 + k as u64), "a minted deposit is recorded with its block", h);
                if matches!(e, ReceivedDepositEvent::Native(_)) && fee.is_some() {
                    let ok = k < calls.len() && matches!(&calls[k], LedgerCall::Transfer(l, arg) if *l == native && arg.amount == Nat::from(fee.unwrap()) && arg.to == Account { owner: me, subaccount: Some(crate::FEES_SUBACCOUNT) });
                    r.check(ok, "the deposit fee goes to the fee account", h);
                    k += 1;
                }
            } else {
                r.check(after.events_to_mint.contains_key(&src), "a deposit the ledger did not mint stays", h);
            }
        }
        if let Some(src) = last {
            r.check(after.invalid_events.get(&src) == Some(&InvalidEventReason::QuarantinedDeposit) && !after.events_to_mint.contains_key(&src), "trap after the ledger call: quarantined", h);
        }
        if out.is_ok() {
            r.check(!after.active_tasks.contains(&TaskType::Mint), "task released", h);
            for (src, _) in before.events_to_mint.iter() {
                let asked = !left.contains_key(src);
                let small = fee.is_some_and(|f| matches!(value[src].0, ReceivedDepositEvent::Native(_)) && value[src].2 < Nat::from(f));
                r.check(asked || (small && !after.events_to_mint.contains_key(src)), "a deposit was passed over", h);
            }
        }
        block += 100;
    }
}
