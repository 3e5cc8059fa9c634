//@ in src/deposit.rs as crate::deposit
// minting is under its guard during each of its ledger calls, and free afterwards
use crate::state::audit::{apply_state_transition, EventType};
use crate::state::{TaskType, STATE};
use crate::vh::{block_on, catch, Run};
use crate::vhb;
use candid::Nat;
use icrc_ledger_client_cdk::{install_mock, take_calls, MockLedger};
use std::cell::RefCell;
use std::rc::Rc;

pub fn run(r: &mut Run) {
    r.repeat(60, 2000, |r| {
        let mut s = vhb::state();
        s.deposit_native_fee = if r.rng.bool() { Some(vhb::wei(3)) } else { None };
        for n in 0..1 + r.rng.below(4) { apply_state_transition(&mut s, &EventType::AcceptedDeposit(vhb::native_event(n, 1000))); }
        let busy = r.rng.chance(5);
        if busy { s.active_tasks.insert(TaskType::Mint); }
        STATE.with(|c| *c.borrow_mut() = Some(s.clone()));
        let seen: Rc<RefCell<Vec<bool>>> = Default::default();
        let (seen2, mut i, bad) = (seen.clone(), 0u64, r.rng.below(8));
        install_mock(MockLedger {
            on_transfer: Box::new(move |_, _| {
                seen2.borrow_mut().push(STATE.with(|c| c.borrow().as_ref().unwrap().active_tasks.contains(&TaskType::Mint)));
                i += 1;
                if i == bad { return Ok(Ok(Nat::from(u64::MAX) + Nat::from(1u8))); }
                if i % 3 == bad % 3 { Err((2, "no".into())) } else { Ok(Ok(Nat::from(i))) }
            }),
            on_transfer_from: Box::new(|_, _| panic!("no transfer_from while minting")),
        });
        let out = catch(|| block_on(super::mint()));
        let _ = take_calls();
        let t = STATE.with(|c| c.borrow().clone().unwrap());
        let show = || format!("{} deposits, busy {busy}, under guard at the calls {:?}, {out:?}", s.events_to_mint.len(), seen.borrow());
        r.case(show());
        if busy { r.check(seen.borrow().is_empty() && t == s, "a second run of the task goes ahead", show); return; }
        r.check(seen.borrow().iter().all(|x| *x), "not under its guard during a call to another canister", show);
        r.check(!t.active_tasks.contains(&TaskType::Mint), "the task is not released at the end", show);
    });
}
