// Random histories of the real state machine (audit::apply_state_transition) against an independent ledger of
// what each history must lead to. A panic rolls the message back, as on the Internet Computer.
#[allow(unused_imports)]
use super::*;
use crate::numeric::{BlockNumber, WeiPerGas};
use crate::state::audit::{apply_state_transition, EventType};
use crate::state::State;
use crate::vh::{catch, Run};
use crate::vhb;
use std::collections::{BTreeMap as Map, BTreeSet as Set};

#[derive(Clone, Debug, PartialEq)]
enum Dep { Queued, Minted(u64), Invalid, Quarantined }

#[derive(Clone, Debug, Default)]
struct Flight { nonce: u64, created: Option<Eip1559TransactionRequest>, sent: Vec<SignedEip1559TransactionRequest> }

#[derive(Clone, Debug, Default)]
struct Ref {
    deposits: Map<u64, (Dep, crate::deposit_logs::ReceivedDepositEvent)>,
    bad: Map<u64, Dep>,
    native: u128,
    erc20: Map<u64, u128>,
    eff: u128,
    unspent: u128,
    queue: Vec<(u64, WithdrawalRequest)>,
    flight: Map<u64, (WithdrawalRequest, Flight)>,
    done: Map<u64, (WithdrawalRequest, SignedEip1559TransactionRequest, bool)>,
    nonce: u64,
    owed: Map<(u64, Option<u64>), (u128, Option<Hash>)>,
    paid: Map<(u64, Option<u64>), Option<u64>>, // None: quarantined
    used: Set<u64>,
    erc20_burn: u64,
    tokens: Set<u64>,
    skipped: Set<u64>,
    minted_as: Map<u64, (String, Option<crate::eth_types::Address>)>,
    scraped: u64,
}

fn idx(k: &(u64, Option<u64>), tok: u64) -> ReimbursementIndex {
    match k.1 {
        None => ReimbursementIndex::Native { ledger_burn_index: LedgerBurnIndex::new(k.0) },
        Some(b) => ReimbursementIndex::Erc20 { native_ledger_burn_index: LedgerBurnIndex::new(k.0), ledger_id: vhb::principal(5000 + tok), erc20_ledger_burn_index: LedgerBurnIndex::new(b) },
    }
}

fn tok_of(r: &WithdrawalRequest) -> Option<u64> {
    match r {
        WithdrawalRequest::Native(_) => None,
        WithdrawalRequest::Erc20(e) => (0..4).find(|t| e.erc20_contract_address == vhb::addr(5000 + t)),
    }
}

fn amount_u128(w: Wei) -> u128 {
    u128::from_be_bytes(w.to_be_bytes()[16..].try_into().unwrap())
}

struct Sim<'a> { r: &'a mut Run, tag: &'a str, s: State, m: Ref, log: Vec<String>, events: Vec<EventType> }

impl<'a> Sim<'a> {
    fn check(&mut self, tag: &str, ok: bool, name: &str, extra: impl FnOnce() -> String) {
        if !ok && (tag == self.tag || (self.tag == "C09" && !name.ends_with("legitimate step is refused") && !name.ends_with("legitimate step is accepted"))) {
            let h = self.log.join("; ");
            let n = name.to_string();
            self.r.check(false, &n, || format!("{} after history [{}]", extra(), h));
        }
    }
    /// apply the event; the model says whether it must be accepted
    fn apply(&mut self, tag: &str, what: String, ev: EventType, accept: Option<bool>) -> bool {
        self.log.push(what.clone());
        let before = self.s.clone();
        let mut s = self.s.clone();
        let res = catch(|| { apply_state_transition(&mut s, &ev); s });
        let ok = res.is_ok();
        match res {
            Ok(s) => {
                if self.tag == "C09" {
                    // the step is taken by the real entry point, which also logs it
                    let mut t = before;
                    match catch(|| { crate::state::audit::process_event(&mut t, ev.clone()); t }) {
                        Ok(t) => self.check("C09", s == t, "an event is processed as its transition", || what.clone()),
                        Err(e) => self.check("C09", false, "a valid event cannot be processed", || format!("{e}: {what}")),
                    }
                }
                self.s = s;
                self.events.push(ev);
            }
            Err(_) => { self.s = before; }
        }
        if let Some(a) = accept {
            self.check(tag, ok == a, if a { "a legitimate step is refused" } else { "an illegitimate step is accepted" }, || what.clone());
        }
        if !ok { self.log.pop(); }
        ok
    }

    fn invariants(&mut self) {
        let s = self.s.clone();
        let m = self.m.clone();
        let w = &s.withdrawal_transactions;
        // C07
        let mut q = Set::new();
        for (n, (d, e)) in &m.deposits {
            let src = vhb::source(*n);
            let inq = s.events_to_mint.get(&src) == Some(e);
            let minted = s.minted_events.get(&src);
            let inv = s.invalid_events.get(&src);
            let ok = match d {
                Dep::Queued => inq && minted.is_none() && inv.is_none(),
                Dep::Minted(b) => !inq && inv.is_none() && minted.map_or(false, |x| x.mint_block_index == LedgerMintIndex::new(*b) && &x.deposit_event == e),
                Dep::Quarantined => !s.events_to_mint.contains_key(&src) && matches!(inv, Some(crate::state::InvalidEventReason::QuarantinedDeposit)),
                Dep::Invalid => !s.events_to_mint.contains_key(&src) && inv.is_some(),
            };
            self.check("C07", ok, "deposit is not in the state its history implies", || format!("deposit {src} should be {d:?}"));
            if let (Some(x), Some(want)) = (minted, m.minted_as.get(n)) {
                self.check("C09", (&x.token_symbol, &x.erc20_contract_address) == (&want.0, &want.1), "minted token recorded", || format!("deposit {src}: {x:?}"));
            }
            q.insert(src);
        }
        self.check("C07", s.events_to_mint.keys().chain(s.minted_events.keys()).all(|k| q.contains(k)), "a deposit that was never accepted is queued or minted", String::new);
        for n in m.bad.keys() {
            if !m.deposits.contains_key(n) {
                self.check("C07", s.invalid_events.contains_key(&vhb::source(*n)), "an invalid deposit is no longer known as invalid", || format!("{n}"));
            }
        }
        self.check("C07", s.events_to_mint().len() == m.deposits.values().filter(|d| d.0 == Dep::Queued).count() && s.has_events_to_mint() == (s.events_to_mint().len() > 0), "list of deposits to mint", String::new);
        // C08
        self.check("C08", s.native_balance.native_balance() == vhb::wei(m.native), "native balance", || format!("{:?} expected {}", s.native_balance, m.native));
        self.check("C08", s.native_balance.total_effective_tx_fees() == vhb::wei(m.eff), "total effective fees", || format!("{:?} expected {}", s.native_balance, m.eff));
        self.check("C08", s.native_balance.total_unspent_tx_fees() == vhb::wei(m.unspent), "total unspent fees", || format!("{:?} expected {}", s.native_balance, m.unspent));
        for t in 0..4u64 {
            let e = m.erc20.get(&t).copied().unwrap_or(0);
            self.check("C08", s.erc20_balances.balance_of(&vhb::addr(5000 + t)) == Erc20Value::from(e), "ERC-20 balance", || format!("token {t} expected {e}"));
        }
        // C03
        self.check("C03", w.next_transaction_nonce() == TransactionNonce::from(m.nonce), "next nonce", || format!("{:?} expected {}", w.next_transaction_nonce(), m.nonce));
        let pend: Vec<_> = w.pending_withdrawal_requests.iter().cloned().collect();
        let exp: Vec<_> = m.queue.iter().map(|x| x.1.clone()).collect();
        self.check("C03", pend == exp, "queue of withdrawals", || format!("{} expected {}", pend.len(), exp.len()));
        for b in &m.used {
            let bi = LedgerBurnIndex::new(*b);
            let (c, se, f) = (w.created_tx.get_alt(&bi), w.sent_tx.get_alt(&bi), w.finalized_tx.get_alt(&bi));
            let pending = m.queue.iter().any(|x| x.0 == *b);
            let ok = if pending {
                c.is_none() && se.is_none() && f.is_none() && !w.processed_withdrawal_requests.contains_key(&bi)
            } else if let Some((req, fl)) = m.flight.get(b) {
                f.is_none() && w.processed_withdrawal_requests.get(&bi) == Some(req)
                    && c.map(|t| t.transaction.clone()) == fl.created
                    && se.map(|v| v.iter().map(|t| t.transaction.clone()).collect::<Vec<_>>()).unwrap_or_default() == fl.sent
                    && w.created_tx.get(&TransactionNonce::from(fl.nonce)) == c && w.sent_tx.get(&TransactionNonce::from(fl.nonce)) == se
            } else if let Some((req, tx, ok)) = m.done.get(b) {
                c.is_none() && se.is_none() && w.processed_withdrawal_requests.get(&bi) == Some(req)
                    && f.map_or(false, |f| f.transaction_hash() == &tx.hash() && (f.transaction_status() == &TransactionStatus::Success) == *ok)
            } else { true };
            self.check("C03", ok, "withdrawal is not in the stage its history implies", || format!("burn {b}"));
            // C16: what the user is told
            let st = w.transaction_status(&bi);
            let told = match st {
                RetrieveWithdrawalStatus::NotFound => "none",
                RetrieveWithdrawalStatus::Pending => "pending",
                RetrieveWithdrawalStatus::TxCreated => "created",
                RetrieveWithdrawalStatus::TxSent(_) => "sent",
                RetrieveWithdrawalStatus::TxFinalized(_) => "finalized",
            };
            let want = if pending { "pending" } else if let Some((_, fl)) = m.flight.get(b) { if fl.created.is_some() { "created" } else { "sent" } } else if m.done.contains_key(b) { "finalized" } else { "none" };
            self.check("C16", told == want, "reported status", || format!("burn {b}: {st:?}, expected {want}"));
            if let RetrieveWithdrawalStatus::TxFinalized(fin) = &st {
                let (req, tx, succ) = &m.done[b];
                let k = if tok_of(req).is_some() { if let WithdrawalRequest::Erc20(e) = req { (*b, Some(e.erc20_ledger_burn_index.get())) } else { (*b, None) } } else { (*b, None) };
                let paid = m.paid.get(&k);
                let h = tx.hash().to_string();
                let ok = match fin {
                    TxFinalizedStatus::Success { transaction_hash, effective_transaction_fee } => *succ && transaction_hash == &h && effective_transaction_fee.is_some(),
                    TxFinalizedStatus::PendingReimbursement(t) => !*succ && (paid.is_none() || paid == Some(&None)) && t.transaction_hash == h,
                    TxFinalizedStatus::Reimbursed { transaction_hash, reimbursed_amount, reimbursed_in_block } => !*succ && transaction_hash == &h && paid == Some(&Some(reimbursed_in_block.0.to_string().parse::<u64>().unwrap())) && reimbursed_amount.0 > 0u8.into(),
                };
                self.check("C16", ok, "reported final status", || format!("burn {b}: {fin:?}, succeeded {succ}, paid {paid:?}"));
            }
        }
        self.check("C03", w.created_tx.iter().chain(std::iter::empty()).all(|(_, b, _)| m.used.contains(&b.get())) && w.finalized_tx.iter().count() == m.done.len(), "unknown transactions", String::new);
        let mb: Set<u64> = w.maybe_reimburse.iter().map(|b| b.get()).collect();
        let fl: Set<u64> = m.flight.keys().copied().collect();
        self.check("C06", mb == fl, "withdrawals still eligible for a refund", || format!("{mb:?} expected {fl:?}"));
        // C06
        let owed: Map<ReimbursementIndex, (Erc20TokenAmount, Option<Hash>)> = w.reimbursement_requests.iter().map(|(k, v)| (k.clone(), (v.reimbursed_amount, v.transaction_hash))).collect();
        let mut want = Map::new();
        for (k, (a, h)) in &m.owed {
            let tok = m.done.get(&k.0).and_then(|d| tok_of(&d.0)).unwrap_or(0);
            want.insert(idx(k, tok), (Erc20TokenAmount::from(*a), *h));
        }
        self.check("C06", owed == want, "refunds owed", || format!("{owed:?} expected {want:?}"));
        let paid: Map<ReimbursementIndex, Option<u64>> = w.reimbursed.iter().map(|(k, v)| (k.clone(), v.as_ref().ok().map(|x| x.reimbursed_in_block.get()))).collect();
        let mut wantp = Map::new();
        for (k, b) in &m.paid {
            let tok = m.done.get(&k.0).and_then(|d| tok_of(&d.0)).unwrap_or(0);
            wantp.insert(idx(k, tok), *b);
        }
        self.check("C06", paid == wantp, "refunds paid", || format!("{paid:?} expected {wantp:?}"));
        for (k, v) in w.reimbursement_requests.iter() {
            let b = k.withdrawal_id().get();
            if let Some((req, _, _)) = m.done.get(&b) {
                let (from, sub) = match req { WithdrawalRequest::Native(n) => (n.from, n.from_subaccount.clone()), WithdrawalRequest::Erc20(e) => (e.from, e.from_subaccount.clone()) };
                self.check("C06", v.to == from && v.to_subaccount == sub && v.ledger_burn_index == k.burn_in_block(), "refund goes to the burner", || format!("{v:?}"));
            }
        }
        // C10
        self.check("C10", s.last_scraped_block_number == BlockNumber::from(m.scraped), "last scraped block", || format!("{} expected {}", s.last_scraped_block_number, m.scraped));
        self.check("C10", s.skipped_blocks.iter().cloned().collect::<Vec<_>>() == m.skipped.iter().map(|b| BlockNumber::from(*b)).collect::<Vec<_>>(), "skipped blocks", || format!("{:?}", m.skipped));
        // C19
        self.check("C19", s.erc20_tokens.iter().count() == m.tokens.len() && m.tokens.iter().all(|t| { let k = vhb::token(*t); s.find_erc20_token_by_ledger_id(&k.erc20_ledger_id) == Some(k.clone()) }), "registered tokens", || format!("{:?}", m.tokens));
    }

    /// a block index of the ledger
    fn block(&mut self) -> u64 {
        match self.r.rng.below(4) { 0 => self.r.rng.u64(), 1 => u64::MAX - self.r.rng.below(3), _ => self.r.rng.below(1000) }
    }

    fn step(&mut self) {
        let op = self.r.rng.below(24);
        if self.tag == "C09" && op == 9 { return; } // the order of the queue is not part of the log
        match op {
            0 | 1 => {
                let n = self.r.rng.below(9);
                let v = (self.r.rng.below(50) + 1) as u128 * 1_000_000_000_000_000_000 + if self.r.rng.bool() { self.r.rng.below(1 << 59) as u128 } else { 0 };
                if self.r.rng.bool() {
                    let e = vhb::native_event(n, v);
                    let ok = !self.m.deposits.contains_key(&n) && !self.m.bad.contains_key(&n);
                    if self.apply("C07", format!("deposit #{n} of {v} wei"), EventType::AcceptedDeposit(e.clone()), Some(ok)) {
                        self.m.deposits.insert(n, (Dep::Queued, e.into()));
                        self.m.native += v;
                    }
                } else {
                    let t = self.r.rng.below(3);
                    let e = vhb::erc20_event(n, t, v);
                    let ok = !self.m.deposits.contains_key(&n) && !self.m.bad.contains_key(&n) && self.m.tokens.contains(&t);
                    if self.apply("C07", format!("deposit #{n} of {v} units of token {t}"), EventType::AcceptedErc20Deposit(e.clone()), Some(ok)) {
                        self.m.deposits.insert(n, (Dep::Queued, e.into()));
                        *self.m.erc20.entry(t).or_insert(0) += v;
                    }
                }
            }
            2 => {
                let n = self.r.rng.below(9);
                let ok = !self.m.deposits.contains_key(&n) || matches!(self.m.deposits[&n].0, Dep::Quarantined);
                if self.apply("C07", format!("deposit #{n} invalid"), EventType::InvalidDeposit { event_source: vhb::source(n), reason: "x".into() }, Some(ok)) {
                    if !self.m.deposits.contains_key(&n) {
                        self.m.bad.entry(n).or_insert(Dep::Invalid);
                    }
                }
            }
            3 => {
                let n = self.r.rng.below(9);
                // only queued deposits are ever quarantined (the guard of mint), and quarantining never panics
                let queued = self.m.deposits.get(&n).map_or(false, |d| d.0 == Dep::Queued);
                if (queued || self.m.bad.contains_key(&n)) && self.r.rng.chance(2) {
                    if self.apply("C07", format!("deposit #{n} quarantined"), EventType::QuarantinedDeposit { event_source: vhb::source(n) }, Some(true)) {
                        if queued { self.m.deposits.get_mut(&n).unwrap().0 = Dep::Quarantined; }
                    }
                }
            }
            4 | 5 => {
                let n = self.r.rng.below(9);
                let b = self.block();
                let ok = self.m.deposits.get(&n).map_or(false, |d| d.0 == Dep::Queued);
                let ev = if self.r.rng.bool() { EventType::MintedNative { event_source: vhb::source(n), mint_block_index: LedgerMintIndex::new(b) } } else { EventType::MintedErc20 { event_source: vhb::source(n), mint_block_index: LedgerMintIndex::new(b), erc20_token_symbol: "T".into(), erc20_contract_address: vhb::addr(5000) } };
                let asked = match &ev { EventType::MintedErc20 { erc20_token_symbol, erc20_contract_address, .. } => (erc20_token_symbol.clone(), Some(*erc20_contract_address)), _ => (self.s.native_symbol.to_string(), None) };
                if self.apply("C07", format!("deposit #{n} minted in block {b}"), ev, Some(ok)) {
                    self.m.minted_as.insert(n, asked);
                    self.m.deposits.get_mut(&n).unwrap().0 = Dep::Minted(b);
                }
            }
            6 | 7 | 8 => {
                let b = self.r.rng.below(6);
                let fresh = !self.m.used.contains(&b) && !self.m.owed.contains_key(&(b, None)) && !self.m.paid.contains_key(&(b, None));
                if self.r.rng.bool() {
                    if !fresh && !self.m.used.contains(&b) { return; }
                    let q = vhb::native_request(b, self.r.rng.below(1 << 40) as u128 * 1_000_000 + 50_000_000_000_000_000);
                    if self.apply("C03", format!("withdrawal {b} of {} wei requested", q.withdrawal_amount), EventType::AcceptedNativeWithdrawalRequest(q.clone()), Some(fresh)) {
                        self.m.used.insert(b);
                        self.m.queue.push((b, q.into()));
                    }
                } else {
                    if !fresh && !self.m.used.contains(&b) { return; }
                    let t = self.r.rng.below(3);
                    self.m.erc20_burn += 1;
                    let q = vhb::erc20_request(b, self.m.erc20_burn, t, 30_000_000_000_000_000 + self.r.rng.below(1 << 50) as u128, self.r.rng.below(1 << 60) as u128 + 1);
                    let ok = fresh && self.m.tokens.contains(&t);
                    if self.apply("C03", format!("withdrawal {b} of {} of token {t} requested, fee budget {}", q.withdrawal_amount, q.max_transaction_fee), EventType::AcceptedErc20WithdrawalRequest(q.clone()), Some(ok)) {
                        self.m.used.insert(b);
                        self.m.queue.push((b, q.into()));
                    }
                }
            }
            9 => {
                if self.m.queue.is_empty() { return; }
                let i = self.r.rng.below(self.m.queue.len() as u64) as usize;
                let (b, q) = self.m.queue[i].clone();
                self.log.push(format!("withdrawal {b} rescheduled"));
                let mut s = self.s.clone();
                match catch(|| { s.withdrawal_transactions.reschedule_withdrawal_request(q); s }) {
                    Ok(s) => { self.s = s; let x = self.m.queue.remove(i); self.m.queue.push(x); }
                    Err(e) => self.check("C03", false, "rescheduling is refused", || e),
                }
            }
            10 | 11 | 12 => {
                if self.m.queue.is_empty() { return; }
                let i = self.r.rng.below(self.m.queue.len() as u64) as usize;
                let (b, q) = self.m.queue[i].clone();
                let f = vhb::fee(self.r.rng.below(200) as u128 * 1_000_000_000, 1_500_000_000);
                let gas = GasAmount::from(if tok_of(&q).is_some() { 65_000_u32 } else { 21_000 });
                let wrong = self.r.rng.chance(6);
                let n = if wrong { self.m.nonce + 1 } else { self.m.nonce };
                match create_transaction(&q, TransactionNonce::from(n), f, gas, crate::evm_config::EvmNetwork::Sepolia) {
                    Ok(mut tx) => {
                        let misdirect = self.r.rng.chance(8);
                        if misdirect { tx.destination = vhb::addr(999_999); }
                        let toomuch = !misdirect && self.r.rng.chance(8);
                        if toomuch { if let WithdrawalRequest::Native(r) = &q { tx.amount = r.withdrawal_amount; } else { tx.amount = Wei::ONE; } }
                        let ok = !wrong && !misdirect && !toomuch;
                        if self.apply("C03", format!("transaction for {b} created with nonce {n}{}{}", if misdirect { " to a foreign address" } else { "" }, if toomuch { " with too large an amount" } else { "" }), EventType::CreatedTransaction { withdrawal_id: LedgerBurnIndex::new(b), transaction: tx.clone() }, Some(ok)) {
                            self.m.queue.retain(|x| x.0 != b);
                            self.m.flight.insert(b, (q, Flight { nonce: n, created: Some(tx), sent: vec![] }));
                            self.m.nonce += 1;
                        }
                    }
                    Err(_) => {}
                }
            }
            13 | 14 => {
                let v: Vec<u64> = self.m.flight.iter().filter(|x| x.1 .1.created.is_some()).map(|x| *x.0).collect();
                if v.is_empty() { return; }
                let b = *self.r.rng.pick(&v);
                let mut tx = self.m.flight[&b].1.created.clone().unwrap();
                let bad = self.r.rng.chance(6);
                if bad { tx.amount = tx.amount.checked_add(Wei::ONE).unwrap(); }
                let salt = self.r.rng.below(1000);
                let signed = vhb::sign(tx, salt);
                if self.apply("C03", format!("transaction of {b} signed{}", if bad { " with another amount" } else { "" }), EventType::SignedTransaction { withdrawal_id: LedgerBurnIndex::new(b), transaction: signed.clone() }, Some(!bad)) {
                    let f = &mut self.m.flight.get_mut(&b).unwrap().1;
                    f.created = None;
                    f.sent.push(signed);
                }
            }
            15 | 16 => {
                let v: Vec<u64> = self.m.flight.iter().filter(|x| !x.1 .1.sent.is_empty()).map(|x| *x.0).collect();
                if v.is_empty() { return; }
                let b = *self.r.rng.pick(&v);
                let last = self.m.flight[&b].1.sent.last().unwrap().transaction().clone();
                let mut tx = last.clone();
                let (old, more, gas) = (amount_u128(tx.max_fee_per_gas.change_units()), 1 + self.r.rng.below(5) as u128, amount_u128(tx.gas_limit.change_units()));
                tx.max_fee_per_gas = WeiPerGas::from(old + more);
                // a replacement stays within what the withdrawal pays for
                match &self.m.flight[&b].0 {
                    WithdrawalRequest::Native(_) if amount_u128(tx.amount) >= more * gas => tx.amount = Wei::from(amount_u128(tx.amount) - more * gas),
                    WithdrawalRequest::Erc20(e) if amount_u128(e.max_transaction_fee) >= (old + more) * gas => {}
                    _ => return,
                }
                let kind = self.r.rng.below(8);
                let ok = kind > 2;
                match kind { 0 => tx.destination = vhb::addr(31337), 1 => tx.data.push(1), 2 => tx.gas_limit = GasAmount::from(1_u8), _ => {} }
                if self.apply("C03", format!("transaction of {b} replaced{}", if ok { "" } else { " by one that differs in more than fee and amount" }), EventType::ReplacedTransaction { withdrawal_id: LedgerBurnIndex::new(b), transaction: tx.clone() }, Some(ok)) {
                    self.m.flight.get_mut(&b).unwrap().1.created = Some(tx);
                }
            }
            17 | 18 | 19 => {
                let v: Vec<u64> = self.m.flight.iter().filter(|x| !x.1 .1.sent.is_empty()).map(|x| *x.0).collect();
                if v.is_empty() { return; }
                let b = *self.r.rng.pick(&v);
                let (req, f) = self.m.flight[&b].clone();
                let tx = self.r.rng.pick(&f.sent).clone();
                let price = amount_u128(tx.transaction().max_fee_per_gas.change_units());
                let gas = amount_u128(tx.transaction().gas_limit.change_units());
                let (dp, dg) = (self.r.rng.below(7) as u128, self.r.rng.below(9) as u128);
                let (p, g) = (price - price * dp / 7, gas - gas * dg / 9);
                let kind = self.r.rng.below(8);
                let good = self.r.rng.bool();
                let mut rc = vhb::receipt(&tx, p, g, good);
                match kind { 0 => rc.transaction_hash = vhb::hash(4242), 1 => rc.effective_gas_price = WeiPerGas::from(price + 1), 2 => rc.gas_used = GasAmount::from(gas + 1), _ => {} }
                let fee = p * g;
                let val = amount_u128(tx.transaction().amount);
                let debit = if good { val + fee } else { fee };
                let (charged, erc) = match &req { WithdrawalRequest::Native(r) => (amount_u128(r.withdrawal_amount) - val, None), WithdrawalRequest::Erc20(e) => (amount_u128(e.max_transaction_fee), Some((tok_of(&req).unwrap(), u128::from_be_bytes(e.withdrawal_amount.to_be_bytes()[16..].try_into().unwrap()), e.erc20_ledger_burn_index.get()))) };
                let books = self.m.native >= debit && (!good || erc.map_or(true, |(t, a, _)| self.m.erc20.get(&t).copied().unwrap_or(0) >= a));
                let ok = kind > 2 && books;
                let tag = if kind <= 2 { "C03" } else { "C08" };
                if self.apply(tag, format!("transaction of {b} finalized: price {p} gas {g} success {good}{}", match kind { 0 => " foreign hash", 1 => " price above maximum", 2 => " gas above limit", _ => "" }), EventType::FinalizedTransaction { withdrawal_id: LedgerBurnIndex::new(b), transaction_receipt: rc }, Some(ok)) {
                    self.m.flight.remove(&b);
                    self.m.native -= debit.min(self.m.native);
                    self.m.eff += fee;
                    self.m.unspent += charged.saturating_sub(fee);
                    if good { if let Some((t, a, _)) = erc { let x = self.m.erc20.entry(t).or_insert(0); *x = x.saturating_sub(a); } }
                    if !good {
                        match erc {
                            None => { self.m.owed.insert((b, None), (val, Some(tx.hash()))); }
                            Some((_, a, eb)) => { self.m.owed.insert((b, Some(eb)), (a, Some(tx.hash()))); }
                        }
                    }
                    self.m.done.insert(b, (req, tx, good));
                }
            }
            20 => {
                let keys: Vec<_> = self.m.owed.keys().chain(self.m.paid.keys()).copied().collect();
                let k = if keys.is_empty() || self.r.rng.chance(5) { (self.r.rng.below(6), None) } else { *self.r.rng.pick(&keys) };
                let blk = self.block();
                let tok = self.m.done.get(&k.0).and_then(|d| tok_of(&d.0)).unwrap_or(0);
                let ok = self.m.owed.contains_key(&k);
                let (a, h) = self.m.owed.get(&k).copied().unwrap_or((1, None));
                let rb = Reimbursed { reimbursed_in_block: LedgerMintIndex::new(blk), burn_in_block: LedgerBurnIndex::new(k.1.unwrap_or(k.0)), reimbursed_amount: Erc20TokenAmount::from(a), transaction_hash: h };
                let ev = match k.1 { None => EventType::ReimbursedNativeWithdrawal(rb), Some(_) => EventType::ReimbursedErc20Withdrawal { native_ledger_burn_index: LedgerBurnIndex::new(k.0), erc20_ledger_id: vhb::principal(5000 + tok), reimbursed: rb } };
                if self.apply("C06", format!("refund {k:?} paid in block {blk}"), ev, Some(ok)) {
                    self.m.owed.remove(&k);
                    self.m.paid.insert(k, Some(blk));
                }
            }
            21 => {
                if self.r.rng.chance(3) {
                    let keys: Vec<_> = self.m.owed.keys().copied().collect();
                    if keys.is_empty() { return; }
                    let k = *self.r.rng.pick(&keys);
                    let tok = self.m.done.get(&k.0).and_then(|d| tok_of(&d.0)).unwrap_or(0);
                    if self.apply("C06", format!("refund {k:?} quarantined"), EventType::QuarantinedReimbursement { index: idx(&k, tok) }, Some(true)) {
                        self.m.owed.remove(&k);
                        self.m.paid.insert(k, None);
                    }
                } else {
                    // an ERC-20 burn that failed after the fee was burned: the fee is refunded
                    let b = self.r.rng.below(8);
                    let k = (b, None);
                    let ok = !self.m.owed.contains_key(&k) && !self.m.paid.contains_key(&k) && !self.m.flight.contains_key(&b);
                    if self.m.used.contains(&b) && !self.m.flight.contains_key(&b) { return; }
                    let rq = ReimbursementRequest { ledger_burn_index: LedgerBurnIndex::new(b), reimbursed_amount: Erc20TokenAmount::from(1234_u32 + b as u32), to: vhb::principal(b), to_subaccount: None, transaction_hash: None };
                    if self.apply("C06", format!("fee of failed ERC-20 burn {b} to be refunded"), EventType::FailedErc20WithdrawalRequest(rq), Some(ok)) {
                        self.m.owed.insert(k, (1234 + b as u128, None));
                    }
                }
            }
            22 => {
                if self.r.rng.bool() {
                    let t = self.r.rng.below(4);
                    let mut tk = vhb::token(t);
                    let kind = self.r.rng.below(10);
                    let other = self.m.tokens.iter().next().copied();
                    let mut ok = !self.m.tokens.contains(&t);
                    match (kind, other) {
                        (0, _) => { tk.chain_id = crate::evm_config::EvmNetwork::Ethereum; ok = false }
                        (1, Some(o)) => { tk.erc20_contract_address = vhb::addr(5000 + o); ok = false }
                        (2, Some(o)) => { tk.erc20_ledger_id = vhb::principal(5000 + o); ok = false }
                        (3, Some(o)) => { tk.erc20_token_symbol = crate::erc20::ERC20TokenSymbol::new(format!("TOK{o}")); ok = false }
                        _ => {}
                    }
                    if self.apply("C19", format!("token {tk:?} registered"), EventType::AddedErc20Token(tk), Some(ok)) {
                        self.m.tokens.insert(t);
                    }
                } else {
                    let n = self.r.rng.below(5);
                    let ok = !self.m.skipped.contains(&n);
                    if self.apply("C10", format!("block {n} skipped"), EventType::SkippedBlock { block_number: BlockNumber::from(n) }, Some(ok)) {
                        self.m.skipped.insert(n);
                    }
                }
            }
            _ => {
                let n = self.m.scraped + self.r.rng.below(500);
                if self.apply("C10", format!("scraped up to {n}"), EventType::SyncedToBlock { block_number: BlockNumber::from(n) }, Some(true)) {
                    self.m.scraped = n;
                }
            }
        }
    }
}

pub fn sim(r: &mut Run, tag: &str) {
    r.repeat(60, 100_000, |r| {
        let steps = 10 + r.rng.below(90);
        let mut m = Ref::default();
        m.scraped = 3_956_206;
        m.erc20_burn = if r.rng.bool() { r.rng.u64() >> 1 } else { 0 };
        let mut sim = Sim { r, tag, s: vhb::state(), m, log: vec![], events: vec![] };
        let rich = sim.r.rng.chance(2);
        if rich {
            for t in 0..3 {
                if sim.apply("C19", format!("token {t} registered"), EventType::AddedErc20Token(vhb::token(t)), Some(true)) { sim.m.tokens.insert(t); }
            }
        }
        for _ in 0..steps {
            sim.step();
            if sim.r.rng.chance(3) { sim.invariants(); }
        }
        sim.invariants();
        let fp = format!("{:?}", sim.log);
        sim.r.case(fp);
    });
}
