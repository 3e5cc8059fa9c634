//@ in src/state/transactions/mod.rs as crate::state::transactions
// histories processed by the real entry point, then replayed from the stable log
include!("sim.rs");
use crate::lifecycle::UpgradeArg;
use crate::state::audit::replay_events;
use crate::storage::{record_event, total_event_count, with_event_iter};
use candid::Nat;

fn upgrade_arg(g: &mut crate::vh::Rng) -> UpgradeArg {
    let o = |g: &mut crate::vh::Rng, n: u64| if g.chance(3) { Some(Nat::from(n)) } else { None };
    UpgradeArg {
        next_transaction_nonce: None,
        native_minimum_withdrawal_amount: o(g, 20_000_000_000_000_000),
        helper_contract_address: if g.chance(3) { Some(vhb::addr(77).to_string()) } else { None },
        block_height: if g.chance(3) { Some(crate::endpoints::CandidBlockTag::Finalized) } else { None },
        last_scraped_block_number: None,
        evm_rpc_id: if g.chance(3) { Some(vhb::principal(333)) } else { None },
        native_ledger_transfer_fee: o(g, 30_000_000_000_000),
        min_max_priority_fee_per_gas: o(g, 2_000_000_000),
        deposit_native_fee: o(g, 5),
        withdrawal_native_fee: o(g, 6),
    }
}

fn history(r: &mut Run) {
    let mut m = Ref::default();
    m.scraped = 3_956_206;
    let first = EventType::Init(vhb::init_arg());
    record_event(first.clone());
    let mut sim = Sim { r, tag: "C09", s: vhb::state(), m, log: vec![], events: vec![first] };
    if sim.r.rng.chance(2) {
        for t in 0..3 {
            if sim.apply("C19", format!("token {t} registered"), EventType::AddedErc20Token(vhb::token(t)), Some(true)) { sim.m.tokens.insert(t); }
        }
    }
    let steps = 5 + sim.r.rng.below(70);
    for _ in 0..steps {
        if sim.r.rng.chance(20) {
            let a = upgrade_arg(&mut sim.r.rng);
            sim.apply("C19", format!("upgraded with {a:?}"), EventType::Upgrade(a), Some(true));
        } else {
            sim.step();
        }
        if sim.r.rng.chance(5) { sim.invariants(); }
    }
    sim.invariants();
    let logged: Vec<EventType> = with_event_iter(|it| it.map(|e| e.payload).collect());
    let n = sim.events.len();
    let same = logged == sim.events && total_event_count() == n as u64;
    let at = logged.iter().zip(&sim.events).position(|(a, b)| a != b);
    let told = format!("{} logged, {n} processed, first difference {at:?}: {:?} instead of {:?}", logged.len(), at.map(|i| &logged[i]), at.map(|i| &sim.events[i]));
    sim.check("C09", same, "the log is the list of processed events", || told);
    let live = sim.s.clone();
    match catch(replay_events) {
        Err(e) => sim.check("C09", false, "the log cannot be replayed", || e),
        Ok(s) => {
            let diff = s.is_equivalent_to(&live);
            sim.check("C09", s == live, "the replayed state is the live one", || format!("{diff:?}"));
        }
    }
    // an upgrade of the canister: the replayed state, and at most one event more
    let arg = if sim.r.rng.bool() { Some(upgrade_arg(&mut sim.r.rng)) } else { None };
    let mut want = live;
    let extra = arg.clone().map(EventType::Upgrade);
    if let Some(e) = &extra {
        apply_state_transition(&mut want, e);
    }
    match catch(|| crate::lifecycle::post_upgrade(arg.clone())) {
        Err(e) => sim.check("C09", false, "the canister cannot be upgraded", || e),
        Ok(()) => {
            let s = crate::state::STATE.with(|c| c.borrow().clone().unwrap());
            let logged: Vec<EventType> = with_event_iter(|it| it.map(|e| e.payload).collect());
            sim.events.extend(extra);
            let same = logged == sim.events;
            sim.check("C09", s == want, "after an upgrade the state is the one before it", || format!("{:?}", s.is_equivalent_to(&want)));
            sim.check("C09", same, "an upgrade logs its argument and nothing else", || format!("{arg:?}"));
        }
    }
    let fp = format!("{:?}", sim.log);
    sim.r.case(fp);
}

pub fn run(r: &mut Run) {
    // a log starts with the initialisation
    let ok = std::thread::spawn(|| {
        let empty = catch(replay_events).is_ok();
        record_event(EventType::SyncedToBlock { block_number: BlockNumber::from(1_u8) });
        record_event(EventType::Init(vhb::init_arg()));
        (empty, catch(replay_events).is_ok())
    }).join().unwrap();
    r.check(!ok.0, "an empty log is not replayed", String::new);
    r.check(!ok.1, "a log that does not start with the initialisation is not replayed", String::new);
    let mut broken = false;
    r.repeat(30, 100_000, |r| {
        if broken { return; }
        let mut child = r.child();
        // a thread of its own: an empty log
        let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || {
            history(&mut child);
            (crate::vh::failed(), child.cases, child.distinct)
        }).unwrap();
        let (f, c, d) = h.join().expect("history");
        broken |= f;
        r.cases += c;
        r.distinct.extend(d);
    });
}
