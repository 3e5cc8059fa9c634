//@ in src/state/transactions/mod.rs as crate::state::transactions
// re-pricing of single transactions and of all unconfirmed ones
use super::*;
use crate::tx::{SignedTransactionRequest, TransactionPrice};
use crate::vh::{catch, Rng, Run};
use crate::vh::number;
use crate::vhb::{self, big, of_big};
use ethnum::u256;

fn sat(x: Option<u256>) -> u256 {
    x.unwrap_or(u256::MAX)
}

/// what is wrong with replacing price (pf, mf) by (rp, rm) when the estimate is (base, prio)
fn price_wrong(pf: u256, mf: u256, rp: u256, rm: u256, base: u256, prio: u256) -> Option<&'static str> {
    let need = sat(base.checked_add(prio));
    if mf >= need && pf >= prio {
        return if rp == pf && rm == mf { None } else { Some("a price that covers the estimate is left alone") };
    }
    if rp < pf || rm < mf {
        return Some("gas prices never go down");
    }
    let ten = sat(pf.checked_add(pf / u256::from(10u8)).and_then(|x| x.checked_add(u256::from((pf % u256::from(10u8) != 0) as u8))));
    if rp < ten {
        return Some("priority fee grows by at least 10%");
    }
    if rp < prio {
        return Some("priority fee covers the estimate");
    }
    if rm < sat(base.checked_add(rp)) {
        return Some("maximum fee covers base plus priority");
    }
    None
}

fn pair(g: &mut Rng) -> (u256, u256) {
    if g.chance(3) { (number(g), number(g)) } else { (u256::from(g.below(60)), u256::from(g.below(60))) }
}

fn sent_tx(g: &mut Rng, nonce: u64, gas: u256, native: bool) -> SignedTransactionRequest {
    let (a, b) = pair(g);
    let (pf, mf) = if g.chance(5) { (a, b) } else { (a.min(b), a.max(b)) };
    let fee = sat(mf.checked_mul(gas));
    let slack = match g.below(4) { 0 => u256::from(0u8), 1 => u256::from(g.below(3)), 2 => u256::from(g.u64() >> g.below(60)), _ => number(g) };
    let budget = sat(fee.checked_add(slack)).min(u256::MAX - u256::from(1u8));
    let tx = Eip1559TransactionRequest {
        chain_id: 7, nonce: TransactionNonce::from(nonce), max_priority_fee_per_gas: of_big(pf), max_fee_per_gas: of_big(mf), gas_limit: of_big(gas),
        destination: vhb::addr(g.below(100)), amount: of_big(if native { budget.checked_sub(fee).unwrap_or_default() } else { u256::from(0u8) }),
        data: if native { vec![] } else { g.bytes(68) }, access_list: Default::default(),
    };
    let resubmission = if native { ResubmissionStrategy::ReduceEthAmount { withdrawal_amount: of_big(budget) } } else { ResubmissionStrategy::GuaranteeEthAmount { allowed_max_transaction_fee: of_big(budget) } };
    SignedTransactionRequest { transaction: vhb::sign(tx, g.u64() >> 3), resubmission }
}

fn replacement_wrong(old: &SignedTransactionRequest, new: &Eip1559TransactionRequest, base: u256, prio: u256) -> Option<&'static str> {
    let o = old.transaction.transaction();
    if o.nonce != new.nonce { return Some("nonce kept"); }
    if o.destination != new.destination { return Some("destination kept"); }
    if o.data != new.data { return Some("call data kept"); }
    if o.chain_id != new.chain_id { return Some("chain kept"); }
    if o.gas_limit != new.gas_limit { return Some("gas limit kept"); }
    if o.access_list != new.access_list { return Some("access list kept"); }
    let budget = big(old.resubmission.allowed_max_transaction_fee());
    let fee = match big(new.max_fee_per_gas).checked_mul(big(new.gas_limit)) { Some(f) => f, None => return Some("maximum fee within the budget") };
    if fee > budget { return Some("maximum fee within the budget"); }
    let native = matches!(old.resubmission, ResubmissionStrategy::ReduceEthAmount { .. });
    if native && big(new.amount).checked_add(fee) != Some(budget) { return Some("amount plus maximum fee is the withdrawn amount"); }
    if !native && o.amount != new.amount { return Some("erc20: amount unchanged"); }
    price_wrong(big(o.max_priority_fee_per_gas), big(o.max_fee_per_gas), big(new.max_priority_fee_per_gas), big(new.max_fee_per_gas), base, prio)
}

fn covered(old: &SignedTransactionRequest, base: u256, prio: u256) -> bool {
    let o = old.transaction.transaction();
    big(o.max_fee_per_gas) >= sat(base.checked_add(prio)) && big(o.max_priority_fee_per_gas) >= prio
}

fn one(r: &mut Run) {
    let g = &mut r.rng;
    let (base, prio) = pair(g);
    let est = GasFeeEstimate { base_fee_per_gas: of_big(base), max_priority_fee_per_gas: of_big(prio) };
    let (pf, mf) = pair(g);
    let gas = match g.below(3) { 0 => u256::from(21_000u32), 1 => u256::from(g.below(6)), _ => number(g) };
    let p = TransactionPrice { gas_limit: of_big(gas), max_fee_per_gas: of_big(mf), max_priority_fee_per_gas: of_big(pf) };
    let show = format!("{p:?} resubmitted at {est:?}");
    r.case(&show);
    match catch(|| p.clone().resubmit_transaction_price(est.clone())) {
        Err(m) => crate::vh::fail(r.section, "traps", &format!("{m}: {show}")),
        Ok(q) => {
            r.eq(q.gas_limit, p.gas_limit, "gas limit kept", || show.clone());
            if let Some(w) = price_wrong(pf, mf, big(q.max_priority_fee_per_gas), big(q.max_fee_per_gas), base, prio) {
                crate::vh::fail(r.section, w, &format!("{show} gave {q:?}"));
            }
        }
    }
    let g = &mut r.rng;
    let native = g.bool();
    let old = sent_tx(g, 3, gas, native);
    let show = format!("{:?} {:?} resubmitted at {est:?}", old.transaction.transaction(), old.resubmission);
    match catch(|| old.resubmit(est.clone())) {
        Err(m) => crate::vh::fail(r.section, "traps", &format!("{m}: {show}")),
        Ok(Ok(None)) => {
            // nothing changed: only when a raise by 10% and the estimate change nothing
            let o = old.transaction.transaction();
            let (pf, mf) = (big(o.max_priority_fee_per_gas), big(o.max_fee_per_gas));
            let w = price_wrong(pf, mf, pf, mf, base, prio);
            r.check(covered(&old, base, prio) || w.is_none(), "an insufficient price is raised", || show.clone());
        }
        Ok(Ok(Some(new))) => {
            r.check(!covered(&old, base, prio), "a price that covers the estimate is left alone", || show.clone());
            if let Some(w) = replacement_wrong(&old, &new, base, prio) {
                crate::vh::fail(r.section, w, &format!("{show} gave {new:?}"));
            }
        }
        Ok(Err(_)) => {
            r.check(!covered(&old, base, prio), "a price that covers the estimate is left alone", || show.clone());
            let o = old.transaction.transaction();
            let (pf, mf) = (big(o.max_priority_fee_per_gas), big(o.max_fee_per_gas));
            let ten = sat(pf.checked_add(pf / u256::from(10u8)).and_then(|x| x.checked_add(u256::from((pf % u256::from(10u8) != 0) as u8))));
            let least = mf.max(sat(base.checked_add(ten.max(prio))));
            let fits = least.checked_mul(big(o.gas_limit)).is_some_and(|f| f <= big(old.resubmission.allowed_max_transaction_fee()));
            r.check(!fits, "refused although the budget suffices", || show.clone());
        }
    }
}

fn all(r: &mut Run) {
    let g = &mut r.rng;
    let (base, prio) = (u256::from(g.below(60)), u256::from(g.below(60)));
    let est = GasFeeEstimate { base_fee_per_gas: of_big(base), max_priority_fee_per_gas: of_big(prio) };
    let first = g.below(4);
    let mut t = WithdrawalTransactions::new(TransactionNonce::from(first));
    let n = g.below(6);
    let mut sent = vec![];
    for k in 0..n {
        let burn = 10 + k;
        let native = g.bool();
        let price = vhb::fee(1 + g.below(30) as u128, g.below(30) as u128);
        let gas = GasAmount::from(1 + g.below(4));
        let fee = big(price.estimate_max_fee_per_gas()) * big(gas);
        let budget = fee + match g.below(3) { 0 => u256::from(0u8), 1 => u256::from(g.below(60)), _ => u256::from(100_000u32) };
        let request = if native {
            let mut q = vhb::native_request(burn, 0);
            q.withdrawal_amount = of_big(budget);
            WithdrawalRequest::Native(q)
        } else {
            let mut q = vhb::erc20_request(burn, 700 + k, 1, 0, 55);
            q.max_transaction_fee = of_big(budget);
            WithdrawalRequest::Erc20(q)
        };
        let nonce = t.next_transaction_nonce();
        t.record_withdrawal_request(request.clone());
        let tx = match create_transaction(&request, nonce, price, gas, EvmNetwork::Sepolia) { Ok(tx) => tx, Err(_) => return };
        t.record_created_transaction(LedgerBurnIndex::new(burn), tx.clone());
        if g.chance(5) && k + 1 == n {
            continue;
        }
        t.record_signed_transaction(vhb::sign(tx.clone(), g.u64() >> 3));
        let resubmission = if native { ResubmissionStrategy::ReduceEthAmount { withdrawal_amount: of_big(budget) } } else { ResubmissionStrategy::GuaranteeEthAmount { allowed_max_transaction_fee: of_big(budget) } };
        sent.push((first + k, burn, SignedTransactionRequest { transaction: vhb::sign(tx, 0), resubmission }));
    }
    let mut last = None;
    for round in 0..2 {
        let confirmed = (first + r.rng.below(n + 2)).saturating_sub(r.rng.below(2));
        let est = if round == 0 { est.clone() } else { vhb::fee(r.rng.below(90) as u128, r.rng.below(90) as u128) };
        let (base, prio) = (big(est.base_fee_per_gas), big(est.max_priority_fee_per_gas));
        let show = format!("sent {:?}, confirmed count {confirmed}, {est:?}, round {round}, before {last:?}", sent.iter().map(|(n, b, s)| (n, b, s.transaction.transaction().clone(), s.resubmission.clone())).collect::<Vec<_>>());
        r.case(&show);
        let got = match catch(|| t.create_resubmit_transactions(TransactionCount::from(confirmed), est.clone())) {
            Ok(x) => x,
            Err(m) => return crate::vh::fail(r.section, "traps", &format!("{m}: {show}")),
        };
        let mut it = got.clone().into_iter();
        for (nonce, burn, old) in sent.iter().filter(|(n, _, _)| *n >= confirmed) {
            if covered(old, base, prio) {
                continue;
            }
            let same = { let o = old.transaction.transaction(); let (a, b) = (big(o.max_priority_fee_per_gas), big(o.max_fee_per_gas)); price_wrong(a, b, a, b, base, prio).is_none() };
            match it.next() {
                _ if same => return, // a raise that changes nothing
                None => { crate::vh::fail(r.section, "an unconfirmed underpriced transaction is resubmitted", &format!("nonce {nonce}: {show} gave {got:?}")); return; }
                Some(Ok((b, new))) => {
                    r.check(b == LedgerBurnIndex::new(*burn), "the replacement is for that withdrawal", || format!("nonce {nonce}: {show} gave {got:?}"));
                    if let Some(w) = replacement_wrong(old, &new, base, prio) {
                        crate::vh::fail(r.section, w, &format!("nonce {nonce}: {show} gave {got:?}"));
                    }
                }
                Some(Err(ResubmitTransactionError::InsufficientTransactionFee { ledger_burn_index, transaction_nonce, .. })) => {
                    r.check(ledger_burn_index == LedgerBurnIndex::new(*burn) && transaction_nonce == TransactionNonce::from(*nonce), "the error names the withdrawal", || format!("{show} gave {got:?}"));
                    r.check(it.len() == 0, "no later nonce after an insufficient budget", || format!("{show} gave {got:?}"));
                    break;
                }
            }
        }
        r.check(it.len() == 0, "nothing else is resubmitted", || format!("{show} gave {got:?}"));
        // record and send the replacements, then once more
        for x in got.clone() {
            if let Ok((b, tx)) = x {
                if catch(|| { t.record_resubmit_transaction(tx.clone()); t.record_signed_transaction(vhb::sign(tx.clone(), 5)) }).is_err() {
                    return crate::vh::fail(r.section, "the replacement can be recorded and sent", &format!("{tx:?}: {show}"));
                }
                for s in sent.iter_mut().filter(|s| LedgerBurnIndex::new(s.1) == b) {
                    s.2.transaction = vhb::sign(tx.clone(), 5);
                }
            }
        }
        last = Some(got);
    }
}

pub fn run(r: &mut Run) {
    r.repeat(2000, 400_000, |r| {
        one(r);
        all(r);
    });
}
