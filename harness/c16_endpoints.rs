//@ in src/main.rs as crate::canister_main
// the withdrawal endpoints against a mock ledger: random callers, arguments, fees and ledger answers
use super::*;
use crate::endpoints::RetrieveWithdrawalStatus;
use crate::numeric::LedgerBurnIndex;
use crate::state::{transactions, State, STATE};
use candid::{Nat, Principal};
use crate::vh::{block_on, catch, Run};
use crate::vhb;
use icrc_ledger_client_cdk::{install_mock, take_calls, LedgerCall, MockLedger};
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc2::transfer_from::TransferFromError as E;
use std::cell::RefCell;
use std::rc::Rc;

fn nat(n: u128) -> Nat {
    Nat::from(n)
}

pub fn run(r: &mut Run) {
    r.repeat(150, 20000, one);
}

fn one(r: &mut Run) {
    let mut s = vhb::state();
    for n in 1..3 {
        s.record_add_erc20_token(vhb::token(n));
    }
    let g = &mut r.rng;
    // amounts of the size of a fee of 65000 gas, now and then
    let sc: u128 = if g.chance(3) { 7_000 } else { 1 };
    let min = sc * (1 + g.below(60) as u128);
    let tf = (sc * g.below(60) as u128).min(min);
    let fee = if g.bool() { None } else { Some(sc * (1 + g.below(80) as u128)) };
    s.native_minimum_withdrawal_amount = vhb::wei(min);
    s.native_ledger_transfer_fee = vhb::wei(tf);
    s.withdrawal_native_fee = fee.map(vhb::wei);
    let base = g.below(4) as u128;
    let prio = g.below(3) as u128;
    let priced = !g.chance(5);
    if priced {
        s.last_transaction_price_estimate = Some((ic0::host::time() as u64 + 1, vhb::fee(base, prio)));
    }
    let gas = (2 * base + prio) * 65_000;
    let queued = if g.chance(6) { 95 + g.below(8) } else { g.below(3) };
    for i in 0..queued {
        s.withdrawal_transactions.record_withdrawal_request(vhb::native_request(1_000_000 + i, 1000));
    }
    let caller = if g.chance(8) { Principal::anonymous() } else { vhb::principal(g.below(3)) };
    let busy = g.chance(8);
    if busy {
        s.pending_withdrawal_principals.insert(caller);
    }
    ic0::host::CALLER.with(|c| *c.borrow_mut() = caller.as_slice().to_vec());
    let (text, dest) = match g.below(6) {
        0 => ("0x0000000000000000000000000000000000000000".to_string(), None),
        1 => ("0x12".to_string(), None),
        2 => ("not an address".to_string(), None),
        _ => { let a = vhb::addr(g.below(9)); (a.to_string(), Some(a)) }
    };
    let edge = [0, min.saturating_sub(1), min, min + 1, fee.unwrap_or(3), fee.unwrap_or(3).saturating_sub(1), fee.unwrap_or(3) + 1, 200 * sc];
    let amount = if g.chance(3) { sc * g.below(120) as u128 } else { *g.pick(&edge) };
    let erc = g.bool();
    let tok = g.below(4);
    let ledger_id = if tok < 3 { vhb::principal(5000 + tok) } else { s.native_ledger_id };
    let known = tok == 1 || tok == 2;
    let native = s.native_ledger_id;
    let me = Principal::from_slice(&ic0::host::this());
    let answers: Vec<u64> = (0..4).map(|_| if g.chance(3) { 1 + g.below(7) } else { 0 }).collect();
    let show = format!("erc20={erc} token={tok} caller={caller} busy={busy} queued={queued} amount={amount} to={text} min={min} ledger_fee={tf} fee={fee:?} gas={:?} answers={answers:?}", if priced { Some(gas) } else { None });
    r.case(&show);
    let got: Rc<RefCell<Vec<(Principal, icrc_ledger_types::icrc2::transfer_from::TransferFromArgs, Option<u64>, u64)>>> = Default::default();
    let got2 = got.clone();
    let mut i = 0usize;
    let low = 400 + r.rng.below(1000);
    install_mock(MockLedger {
        on_transfer: Box::new(|_, _| panic!("no mint in a withdrawal")),
        on_transfer_from: Box::new(move |l, a| {
            let k = answers[i % 4];
            i += 1;
            let b = low + 7 * i as u64;
            got2.borrow_mut().push((l, a.clone(), (k == 0).then_some(b), k));
            match k {
                0 => Ok(Ok(Nat::from(b))),
                1 => Ok(Err(E::InsufficientFunds { balance: Nat::from(3u8) })),
                2 => Ok(Err(E::InsufficientAllowance { allowance: Nat::from(3u8) })),
                3 => Ok(Err(E::TemporarilyUnavailable)),
                4 => Ok(Err(E::GenericError { error_code: Nat::from(3u8), message: "no".into() })),
                5 if a.to.subaccount.is_none() && a.to.owner == me => Ok(Err(E::BadBurn { min_burn_amount: Nat::from(3u8) })),
                _ => Err((2, "rejected".into())),
            }
        }),
    });
    ic0::host::on_call(Box::new(|_| Err((2, "no providers here".into()))));
    let before = s.clone();
    STATE.with(|c| *c.borrow_mut() = Some(s));
    let log0 = crate::storage::total_event_count();
    enum Out { Ok(Vec<Nat>), Err(String) }
    let out = catch(|| {
        if erc {
            match block_on(withdraw_erc20(WithdrawErc20Arg { amount: nat(amount), erc20_ledger_id: ledger_id, recipient: text.clone() })) {
                Ok(x) => Out::Ok(vec![x.native_block_index, x.erc20_block_index]),
                Err(e) => Out::Err(format!("{e:?}")),
            }
        } else {
            match block_on(withdraw_native_token(WithdrawalArg { amount: nat(amount), recipient: text.clone() })) {
                Ok(x) => Out::Ok(vec![x.block_index]),
                Err(e) => Out::Err(format!("{e:?}")),
            }
        }
    });
    let _ = take_calls();
    let after = STATE.with(|c| c.borrow().clone().unwrap());
    let calls = got.borrow().clone();
    let told = match &out { Ok(Out::Ok(v)) => format!("accepted {v:?}"), Ok(Out::Err(e)) => e.clone(), Err(e) => format!("trap: {e}") };
    let h = || format!("{show} -> {told}; ledger calls {:?}", calls.iter().map(|c| (c.0.to_string(), c.1.amount.to_string(), c.2)).collect::<Vec<_>>());
    let may = caller != Principal::anonymous() && !busy && queued < 100 && dest.is_some() && if erc { known && priced } else { amount >= min };
    if !may {
        r.check(calls.is_empty(), "a refused withdrawal called a ledger", h);
        r.check(!matches!(out, Ok(Out::Ok(_))), "a withdrawal that must be refused was accepted", h);
        r.check(after.withdrawal_transactions == before.withdrawal_transactions, "a refused withdrawal changed the queue", h);
        return;
    }
    let acc = Account { owner: caller, subaccount: None };
    let mine = Account { owner: me, subaccount: None };
    let fees = Account { owner: me, subaccount: Some(crate::FEES_SUBACCOUNT) };
    let (mut paid, mut refunded, mut nburn, mut eburn): (bool, bool, Option<(Nat, Option<u64>, u64)>, Option<(Nat, Option<u64>, u64)>) = (false, false, None, None);
    for (l, a, ok, k) in &calls {
        let plain = a.fee.is_none() && a.created_at_time.is_none() && a.spender_subaccount.is_none();
        r.check(plain, "a ledger call names a fee or a time", h);
        if a.to == fees {
            r.check(a.from == acc && *l == native && !paid && nburn.is_none() && eburn.is_none(), "the withdrawal fee is taken once, first, from the caller, on the native ledger", h);
            r.check(fee.is_some_and(|f| a.amount == nat(f) - nat(tf)), "the withdrawal fee taken is the configured one less the ledger fee", h);
            paid = ok.is_some();
        } else if a.from == fees {
            r.check(a.to == acc && *l == native && paid && !refunded, "the fee is refunded once to the caller", h);
            r.check(fee.is_some_and(|f| a.amount <= nat(f)), "more than the fee is refunded", h);
            refunded = true;
        } else {
            r.check(a.from == acc && a.to == mine, "burned from the caller's account", h);
            if *l == native && nburn.is_none() && !(erc && ledger_id == native && nburn.is_some()) {
                nburn = Some((a.amount.clone(), *ok, *k));
            } else {
                r.check(erc && *l == ledger_id && eburn.is_none() && nburn.as_ref().is_some_and(|n| n.1.is_some()), "tokens are burned once, on their ledger, after the gas fee", h);
                eburn = Some((a.amount.clone(), *ok, *k));
            }
        }
    }
    if let Some(n) = &nburn {
        let want = if erc { nat(gas) } else { nat(amount) - nat(if paid { fee.unwrap() } else { 0 }) };
        r.eq(n.0.clone(), want, "amount burned on the native ledger", h);
        r.check(fee.is_none() || paid, "a configured fee was not taken first", h);
    }
    if let Some(n) = &eburn {
        r.eq(n.0.clone(), nat(amount), "amount burned on the token's ledger", h);
    }
    let burned = if erc { eburn.as_ref().and_then(|e| e.1) } else { nburn.as_ref().and_then(|e| e.1) };
    let wt = |s: &State| s.withdrawal_transactions.withdrawal_requests_iter().cloned().collect::<Vec<_>>();
    let (q0, q1) = (wt(&before), wt(&after));
    let ok = matches!(out, Ok(Out::Ok(_)));
    r.eq(burned.is_some(), ok, "accepted exactly when the ledger confirmed the burn", h);
    r.check(q1.len() >= q0.len() && q1[..q0.len()] == q0[..], "other queued requests untouched", h);
    if let Some(b) = burned {
        r.check(q1.len() == q0.len() + 1, "the burned withdrawal is queued once", h);
        let n = nburn.clone().unwrap();
        if let Some(q) = q1.last() {
            match q {
                transactions::WithdrawalRequest::Native(x) => r.check(!erc && Nat::from(x.withdrawal_amount) == n.0 && x.ledger_burn_index.get() == b && Some(x.destination) == dest && x.from == caller && x.from_subaccount.is_none(), "the queued request is what was burned", || format!("{} queued {x:?}", h())),
                transactions::WithdrawalRequest::Erc20(x) => r.check(erc && Nat::from(x.withdrawal_amount) == nat(amount) && Nat::from(x.max_transaction_fee) == n.0 && Some(x.native_ledger_burn_index.get()) == n.1 && x.erc20_ledger_burn_index.get() == b && x.erc20_ledger_id == ledger_id && x.erc20_contract_address == vhb::addr(5000 + tok) && Some(x.destination) == dest && x.from == caller && x.from_subaccount.is_none(), "the queued request is what was burned", || format!("{} queued {x:?}", h())),
            }
        }
        if let Ok(Out::Ok(v)) = &out {
            let mut want = vec![Nat::from(n.1.unwrap())];
            if erc { want.push(Nat::from(b)); }
            r.eq(v.clone(), want, "the caller is told the burn indices", h);
        }
        let st = after.withdrawal_transactions.transaction_status(&LedgerBurnIndex::new(n.1.unwrap()));
        r.eq(st, RetrieveWithdrawalStatus::Pending, "status of the queued request", h);
    } else {
        r.check(q1.len() == q0.len(), "something was queued without a burn", h);
        r.check(!paid || refunded, "a fee taken for nothing is not refunded", h);
    }
    let reimb: Vec<_> = after.withdrawal_transactions.reimbursement_requests_iter().map(|(k, v)| (k.clone(), v.clone())).collect();
    match &nburn {
        Some((a, Some(b), _)) if erc && burned.is_none() => {
            let own_fault = eburn.as_ref().is_some_and(|e| [1, 2, 5].contains(&e.2));
            if *a > nat(tf) {
                r.check(reimb.len() == 1 && out.is_ok(), "the gas fee burned for nothing is not reimbursed", h);
                for (k, v) in &reimb {
                    r.check(*k == transactions::ReimbursementIndex::Native { ledger_burn_index: LedgerBurnIndex::new(*b) } && v.to == caller && v.to_subaccount.is_none(), "the reimbursement is for the gas fee, to the caller", || format!("{} {v:?}", h()));
                    let x = Nat::from(v.reimbursed_amount);
                    r.check(x <= *a && x.clone() + nat(tf) >= *a && (own_fault || x == *a), "the reimbursed amount is the gas fee, less at most a ledger fee", || format!("{} {v:?}", h()));
                }
            }
        }
        _ => r.check(reimb.is_empty(), "a reimbursement nobody is owed", h),
    }
    r.check(after.pending_withdrawal_principals.is_empty(), "the caller's guard is released", h);
    r.check(crate::storage::total_event_count() - log0 == (q1.len() - q0.len()) as u64 + reimb.len() as u64, "every change is logged", h);
}
