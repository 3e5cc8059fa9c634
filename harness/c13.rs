//@ in src/guard/mod.rs as crate::guard
// guards taken and dropped in random order
use super::*;
use crate::state::STATE;
use crate::vh::{catch, Run};
use crate::vhb;

pub fn run(r: &mut Run) {
    let tasks = [TaskType::Mint, TaskType::RetrieveEth, TaskType::ScrapLogs, TaskType::RefreshGasFeeEstimate, TaskType::Reimbursement, TaskType::MintErc20];
    r.repeat(60, 20_000, |r| {
        let mut s = vhb::state();
        let queued = if r.rng.chance(3) { 98 + r.rng.below(5) } else { r.rng.below(4) };
        for i in 0..queued {
            s.withdrawal_transactions.record_withdrawal_request(vhb::native_request(1 + i, 1000));
        }
        STATE.with(|c| *c.borrow_mut() = Some(s));
        let mut held: Vec<(u64, Guard<PendingWithdrawalRequests>)> = vec![];
        let mut running: Vec<(usize, TimerGuard)> = vec![];
        let mut log = vec![format!("{queued} queued")];
        let callers = if r.rng.chance(3) { 130 } else { 5 };
        let steps = if callers == 130 { 320 } else { 40 };
        for step in 0..steps {
            let fill = callers == 130 && step < 150;
            match r.rng.below(6) {
                x if x < 3 || fill => {
                    let p = if fill && r.rng.below(4) != 0 { step % callers } else { r.rng.below(callers) };
                    log.push(format!("take {p}"));
                    let before = STATE.with(|c| c.borrow().clone().unwrap());
                    let got = match catch(|| retrieve_withdraw_guard(vhb::principal(p))) {
                        Err(e) => return crate::vh::fail(r.section, "traps", &format!("{e}: after {log:?}")),
                        Ok(x) => x,
                    };
                    let has = held.iter().any(|(q, _)| *q == p);
                    let ok = !has && held.len() < 100 && queued < 100;
                    let show = || format!("{} held, {queued} queued, held already {has}: after {log:?}", held.len());
                    r.check(got.is_ok() == ok, "granted exactly when the caller holds none, fewer than 100 do and fewer than 100 are queued", show);
                    let after = STATE.with(|c| c.borrow().clone().unwrap());
                    match got {
                        Ok(x) => {
                            r.check(after.pending_withdrawal_principals.contains(&vhb::principal(p)), "the caller holds it", show);
                            if !ok { return; }
                            held.push((p, x));
                        }
                        Err(e) => {
                            r.check(after == before, "a refusal changes nothing", show);
                            let why = match e { GuardError::AlreadyProcessing => has, GuardError::TooManyConcurrentRequests => held.len() >= 100, GuardError::TooManyPendingRequests => queued >= 100 };
                            r.check(why, "the reason given is true", show);
                        }
                    }
                }
                3 => {
                    if !held.is_empty() {
                        let i = r.rng.below(held.len() as u64) as usize;
                        log.push(format!("drop {}", held[i].0));
                        drop(held.remove(i));
                    }
                }
                4 => {
                    let t = r.rng.below(6) as usize;
                    log.push(format!("enter {:?}", tasks[t]));
                    let before = STATE.with(|c| c.borrow().clone().unwrap());
                    let got = TimerGuard::new(tasks[t]);
                    let busy = running.iter().any(|(u, _)| *u == t);
                    r.check(got.is_ok() != busy, "a task is entered exactly when it is not running", || format!("after {log:?}"));
                    match got {
                        Ok(x) => { if busy { return; } running.push((t, x)) }
                        Err(_) => r.check(STATE.with(|c| c.borrow().clone().unwrap()) == before, "a refusal changes nothing", || format!("after {log:?}")),
                    }
                }
                _ => {
                    if !running.is_empty() {
                        let i = r.rng.below(running.len() as u64) as usize;
                        log.push(format!("end {:?}", tasks[running[i].0]));
                        drop(running.remove(i));
                    }
                }
            }
            let s = STATE.with(|c| c.borrow().clone().unwrap());
            let want: std::collections::BTreeSet<_> = held.iter().map(|(p, _)| vhb::principal(*p)).collect();
            r.check(s.pending_withdrawal_principals == want, "exactly the holders are registered", || format!("after {log:?}"));
            let run: std::collections::HashSet<_> = running.iter().map(|(t, _)| tasks[*t]).collect();
            r.check(s.active_tasks == run, "exactly the running tasks are registered", || format!("after {log:?}"));
            if s.pending_withdrawal_principals != want || s.active_tasks != run { return; }
        }
        r.case(&log);
    });
}
