//@ in src/state/transactions/mod.rs as crate::state::transactions
// process_reimbursement() against a mock ledger: random due reimbursements and ledger answers, over several runs
use super::*;
use crate::state::{TaskType, STATE};
use crate::vh::{block_on, catch, Run};
use crate::vhb;
use crate::withdraw::process_reimbursement;
use candid::{Nat, Principal};
use icrc_ledger_client_cdk::{install_mock, take_calls, LedgerCall, MockLedger};
use icrc_ledger_types::icrc1::account::Account;
use icrc_ledger_types::icrc1::transfer::TransferError;

type Due = (ReimbursementIndex, ReimbursementRequest);

fn due(g: &mut crate::vh::Rng) -> Due {
    let n = g.below(6);
    let b = g.below(6);
    let hash = if g.chance(3) { None } else { Some(vhb::hash(g.below(9))) };
    let sub = if g.bool() { Some(Subaccount([1 + g.below(5) as u8; 32])) } else { None };
    let mut amount = Erc20TokenAmount::from(1 + g.below(1_000_000));
    if g.chance(6) { amount = Erc20TokenAmount::from_be_bytes(g.bytes32()); }
    let native = g.bool();
    let index = if native {
        ReimbursementIndex::Native { ledger_burn_index: LedgerBurnIndex::new(n) }
    } else {
        ReimbursementIndex::Erc20 { native_ledger_burn_index: LedgerBurnIndex::new(n), ledger_id: vhb::principal(5000 + g.below(3)), erc20_ledger_burn_index: LedgerBurnIndex::new(b) }
    };
    (index, ReimbursementRequest { ledger_burn_index: LedgerBurnIndex::new(if native { n } else { b }), reimbursed_amount: amount, to: vhb::principal(g.below(4)), to_subaccount: sub, transaction_hash: hash })
}

fn nat(a: Erc20TokenAmount) -> Nat {
    let mut x = Nat::from(0u8);
    for b in a.to_be_bytes() { x = x * Nat::from(256u32) + Nat::from(b); }
    x
}

pub fn run(r: &mut Run) {
    r.repeat(80, 4000, one);
}

fn one(r: &mut Run) {
    let mut s = vhb::state();
    for n in 0..3 { s.record_add_erc20_token(vhb::token(n)); }
    let mut owed: BTreeMap<ReimbursementIndex, ReimbursementRequest> = BTreeMap::new();
    for _ in 0..1 + r.rng.below(5) {
        let (i, q) = due(&mut r.rng);
        // one native burn serves one withdrawal
        if owed.contains_key(&i) { continue; }
        s.withdrawal_transactions.record_reimbursement_request(i.clone(), q.clone());
        owed.insert(i, q);
    }
    let native = s.native_ledger_id;
    let mut hist = format!("due {owed:?}");
    STATE.with(|c| *c.borrow_mut() = Some(s));
    let mut paid: BTreeMap<ReimbursementIndex, Option<u64>> = BTreeMap::new();
    let mut block = if r.rng.chance(4) { u64::MAX - 1000 } else { 100 };
    for _run in 0..3 {
        // per call: 0 block index, 1 ledger error, 2 rejected, 3 block index beyond u64 (traps afterwards)
        let ans: Vec<u64> = (0..20).map(|_| if r.rng.chance(2) { 0 } else { r.rng.below(4) }).collect();
        // and another reimbursement may become due meanwhile
        let more: Vec<Option<Due>> = (0..20).map(|_| if r.rng.chance(6) { Some(due(&mut r.rng)) } else { None }).collect();
        let (a2, m2, b0) = (ans.clone(), more.clone(), block);
        let mut i = 0usize;
        install_mock(MockLedger {
            on_transfer: Box::new(move |_, _| {
                i += 1;
                if let Some((k, q)) = &m2[(i - 1) % 20] {
                    STATE.with(|c| {
                        let mut c = c.borrow_mut();
                        let w = &mut c.as_mut().unwrap().withdrawal_transactions;
                        if !w.reimbursement_requests.contains_key(k) && !w.reimbursed.contains_key(k) { w.record_reimbursement_request(k.clone(), q.clone()); }
                    });
                }
                match a2[(i - 1) % 20] {
                    0 => Ok(Ok(Nat::from(b0 + i as u64))),
                    1 => Ok(Err(TransferError::TemporarilyUnavailable)),
                    2 => Err((2, "rejected".into())),
                    _ => Ok(Ok(Nat::from(u64::MAX) + Nat::from(1u8 + i as u8))),
                }
            }),
            on_transfer_from: Box::new(|_, _| panic!("no transfer_from while reimbursing")),
        });
        let busy = r.rng.chance(8);
        if busy { STATE.with(|c| c.borrow_mut().as_mut().unwrap().active_tasks.insert(TaskType::Reimbursement)); }
        let before = STATE.with(|c| c.borrow().clone().unwrap());
        let out = catch(|| block_on(process_reimbursement()));
        let calls = take_calls();
        let after = STATE.with(|c| c.borrow().clone().unwrap());
        hist += &format!(" | answers={:?} trapped={} busy={busy}", &ans[..calls.len().min(20)], out.is_err());
        r.case(&hist);
        let h = || hist.clone();
        if busy {
            r.check(calls.is_empty() && after == before, "a second run pays while one is under way", h);
            STATE.with(|c| c.borrow_mut().as_mut().unwrap().active_tasks.clear());
            continue;
        }
        r.check(!after.active_tasks.contains(&TaskType::Reimbursement), "the task is released", h);
        r.check(out.is_ok() || !calls.is_empty(), "traps before any call", || format!("{out:?} {hist}"));
        let mut left = owed.clone();
        for (k, c) in calls.iter().enumerate() {
            let LedgerCall::Transfer(ledger, arg) = c else { r.check(false, "only transfers", h); return };
            let fits = |i: &ReimbursementIndex, q: &ReimbursementRequest| {
                let l = match i { ReimbursementIndex::Native { .. } => native, ReimbursementIndex::Erc20 { ledger_id, .. } => *ledger_id };
                l == *ledger && arg.amount == nat(q.reimbursed_amount) && arg.to == Account { owner: q.to, subaccount: q.to_subaccount.as_ref().map(|s| s.0) } && arg.fee.is_none() && arg.from_subaccount.is_none() && arg.created_at_time.is_none()
            };
            let b = b0 + k as u64 + 1;
            // several may look alike: the record tells which one was paid
            let a = ans[k % 20];
            let now = |i: &ReimbursementIndex| match after.withdrawal_transactions.reimbursed.get(i) {
                None => a == 1 || a == 2,
                Some(Ok(x)) => a == 0 && x.reimbursed_in_block == LedgerMintIndex::new(b),
                Some(Err(_)) => a == 3,
            };
            let which = left.iter().find(|(i, q)| fits(i, q) && now(i)).or_else(|| left.iter().find(|(i, q)| fits(i, q))).map(|(i, _)| i.clone());
            let Some(i) = which else {
                r.check(false, "a payment that is not due", || format!("{hist} call {c:?}"));
                return;
            };
            let q = left.remove(&i).unwrap();
            r.check(!paid.contains_key(&i), "a reimbursement is paid twice", h);
            let rec = after.withdrawal_transactions.reimbursed.get(&i);
            let waiting = after.withdrawal_transactions.reimbursement_requests.get(&i);
            match a {
                0 => {
                    paid.insert(i.clone(), Some(b));
                    let want = Reimbursed { reimbursed_in_block: LedgerMintIndex::new(b), burn_in_block: q.ledger_burn_index, reimbursed_amount: q.reimbursed_amount, transaction_hash: q.transaction_hash };
                    r.check(waiting.is_none() && rec == Some(&Ok(want)), "a paid reimbursement is recorded with its block and leaves the list", || format!("{hist} {i:?} {rec:?}"));
                }
                1 | 2 => r.check(waiting == Some(&q) && rec.is_none(), "a reimbursement the ledger did not pay stays due", || format!("{hist} {i:?} {rec:?}")),
                _ => {
                    paid.insert(i.clone(), None);
                    r.check(waiting.is_none() && rec == Some(&Err(ReimbursedError::Quarantined)), "a reimbursement whose processing trapped after the payment is in quarantine", || format!("{hist} {i:?} {rec:?}"));
                    r.check(k + 1 == calls.len() && out.is_err(), "no payment after a trap", h);
                }
            }
        }
        if out.is_ok() { r.check(left.is_empty(), "a due reimbursement is passed over", || format!("{hist} {left:?}")); }
        // whatever was not touched is as before, and nothing else is paid
        for (_, x) in (0..calls.len()).map(|k| (k, &more[k % 20])) {
            if let Some((i, q)) = x { if !owed.contains_key(i) && !paid.contains_key(i) { owed.insert(i.clone(), q.clone()); } }
        }
        owed.retain(|i, _| !paid.contains_key(i));
        r.eq(after.withdrawal_transactions.reimbursement_requests.clone(), owed.clone(), "what is still due", h);
        r.eq(after.withdrawal_transactions.reimbursed.keys().cloned().collect::<Vec<_>>(), paid.keys().cloned().collect(), "what is settled", h);
        block += 100;
        if crate::vh::failed() { return; }
    }
}
