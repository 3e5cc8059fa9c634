//@ in src/tx.rs as crate::tx
// gas price estimates from random fee histories, and when the cached one may be used
use super::*;
use crate::numeric::BlockNumber;
use crate::state::STATE;
use crate::vh::{block_on, catch, Rng, Run};
use crate::vh::number;
use crate::vhb::{self, big, of_big};
use candid::{encode_one, Nat};
use ethnum::u256;
use evm_rpc_types::{FeeHistory as EF, MultiRpcResult, Nat256, RpcError};
use std::cell::Cell;
use std::rc::Rc;

fn numbers(g: &mut Rng, n: u64) -> Vec<u256> {
    let k = g.below(4);
    (0..n).map(|_| match k { 0 => number(g), 1 => u256::from(g.below(4)), 2 => u256::from(g.below(100)), _ => u256::from(g.u64() >> 24) }).collect()
}

fn history(g: &mut Rng) -> (Vec<u256>, Vec<Vec<u256>>) {
    let nb = if g.chance(8) { 0 } else { 1 + g.below(7) };
    let bases = numbers(g, nb);
    let rows = if g.chance(8) { 0 } else { 1 + g.below(6) };
    let width = g.below(3);
    let rewards = (0..rows).map(|_| { let n = if g.chance(4) { g.below(4) } else { width }; numbers(g, n) }).collect();
    (bases, rewards)
}

/// what is wrong with the outcome
fn wrong(bases: &[u256], rewards: &[Vec<u256>], min: u256, got: &Result<GasFeeEstimate, ()>) -> Option<&'static str> {
    let mut all: Vec<u256> = rewards.iter().flatten().copied().collect();
    all.sort();
    if bases.is_empty() || all.is_empty() {
        return if got.is_ok() { Some("an empty history gives an error") } else { None };
    }
    let base = *bases.last().unwrap();
    let (lo, hi) = (all[(all.len() - 1) / 2], all[all.len() / 2]);
    let (lo, hi) = (lo.max(min), hi.max(min));
    let fits = |p: u256| base.checked_mul(u256::from(2u8)).and_then(|x| x.checked_add(p)).is_some();
    match got {
        Err(()) => if fits(hi) { Some("refused although everything fits") } else { None },
        Ok(e) => {
            let (b, p) = (big(e.base_fee_per_gas), big(e.max_priority_fee_per_gas));
            if b != base { Some("the next block's base fee") }
            else if p < lo || p > hi { Some("the priority fee is the median reward, at least the minimum") }
            else if !fits(p) { Some("an overflow gives an error") }
            else if big(e.estimate_max_fee_per_gas()) != b * u256::from(2u8) + p { Some("the maximum fee is twice the base fee plus the priority fee") }
            else { None }
        }
    }
}

fn est(r: &mut Run) {
    let g = &mut r.rng;
    let (bases, rewards) = history(g);
    let min = match g.below(3) { 0 => u256::from(0u8), 1 => u256::from(g.below(100)), _ => number(g) };
    let mut s = vhb::state();
    s.min_max_priority_fee_per_gas = of_big(min);
    STATE.with(|c| *c.borrow_mut() = Some(s));
    let h = FeeHistory { oldest_block: BlockNumber::from(5u8), base_fee_per_gas: bases.iter().map(|x| of_big(*x)).collect(), reward: rewards.iter().map(|l| l.iter().map(|x| of_big(*x)).collect()).collect() };
    let show = format!("base fees {bases:?}, rewards {rewards:?}, minimum priority fee {min}");
    r.case(&show);
    match catch(|| estimate_transaction_fee(&h)) {
        Err(m) => crate::vh::fail(r.section, "traps", &format!("{m}: {show}")),
        Ok(x) => {
            if let Some(w) = wrong(&bases, &rewards, min, &x.clone_ok()) {
                crate::vh::fail(r.section, w, &format!("{show} gave {x:?}"));
            }
        }
    }
}

trait CloneOk {
    fn clone_ok(&self) -> Result<GasFeeEstimate, ()>;
}
impl<E> CloneOk for Result<GasFeeEstimate, E> {
    fn clone_ok(&self) -> Result<GasFeeEstimate, ()> {
        match self { Ok(x) => Ok(x.clone()), Err(_) => Err(()) }
    }
}

fn price(r: &mut Run) {
    let g = &mut r.rng;
    let (base, prio, gas, mf) = (number(g), number(g), number(g), number(g));
    let e = GasFeeEstimate { base_fee_per_gas: of_big(base), max_priority_fee_per_gas: of_big(prio) };
    let two = base.checked_mul(u256::from(2u8)).and_then(|x| x.checked_add(prio));
    let show = || format!("{e:?}, gas limit {gas}, maximum fee per gas {mf}");
    r.case((base.to_be_bytes(), prio.to_be_bytes()));
    r.eq(e.checked_estimate_max_fee_per_gas().map(big), two, "checked maximum fee", show);
    r.eq(big(e.estimate_max_fee_per_gas()), two.unwrap_or(u256::MAX), "maximum fee", show);
    r.eq(big(e.min_max_fee_per_gas()), base.checked_add(prio).unwrap_or(u256::MAX), "minimum maximum fee", show);
    let p = e.clone().to_price(of_big(gas));
    r.check(big(p.gas_limit) == gas && big(p.max_fee_per_gas) == two.unwrap_or(u256::MAX) && big(p.max_priority_fee_per_gas) == prio, "price of an estimate", show);
    let q = TransactionPrice { gas_limit: of_big(gas), max_fee_per_gas: of_big(mf), max_priority_fee_per_gas: of_big(prio) };
    r.eq(big(q.max_transaction_fee()), mf.checked_mul(gas).unwrap_or(u256::MAX), "maximum transaction fee", show);
}

fn nat(x: &u256) -> Nat256 {
    Nat256::try_from(Nat(num_bigint::BigUint::from_bytes_be(&x.to_be_bytes()))).unwrap()
}

fn lazy(r: &mut Run) {
    let g = &mut r.rng;
    let now = 1_800_000_000_000_000_000i64 + g.below(1 << 40) as i64;
    ic0::host::TIME.with(|t| t.set(now));
    let mut s = vhb::state();
    s.min_max_priority_fee_per_gas = of_big(u256::from(g.below(50)));
    let min = big(s.min_max_priority_fee_per_gas);
    // age of the cached estimate in ns, kept away from the limit by more than the calls of one message take
    let age = match g.below(8) { 0 => None, 1 => Some(0), 2 => Some(29_999_990_000i64), 3 => Some(30_000_010_000), 4 => Some(-1_000_000), 5 => Some(g.below(60_000_000_000) as i64), 6 => Some(31_000_000_000), _ => Some(1_000_000_000_000) };
    let cached = vhb::fee(g.below(1000) as u128, g.below(1000) as u128);
    s.last_transaction_price_estimate = age.map(|a| ((now - a) as u64, cached.clone()));
    let before = s.last_transaction_price_estimate.clone();
    STATE.with(|c| *c.borrow_mut() = Some(s));
    let (bases, rewards) = history(g);
    let good = !g.chance(5);
    let full: MultiRpcResult<Option<EF>> = if good {
        MultiRpcResult::Consistent(Ok(Some(EF { oldest_block: Nat256::from(7u64), base_fee_per_gas: bases.iter().map(nat).collect(), gas_used_ratio: vec![], reward: rewards.iter().map(|l| l.iter().map(nat).collect()).collect() })))
    } else if g.bool() {
        MultiRpcResult::Consistent(Ok(None))
    } else {
        MultiRpcResult::Consistent(Err(RpcError::ProviderError(evm_rpc_types::ProviderError::NoPermission)))
    };
    let bytes = encode_one(&full).unwrap();
    let calls = Rc::new(Cell::new(0));
    let c2 = calls.clone();
    ic0::host::on_call(Box::new(move |_| {
        c2.set(c2.get() + 1);
        Ok(bytes.clone())
    }));
    let show = format!("cached {before:?} at {now}, providers answer {full:?}, minimum {min}");
    r.case(&show);
    let got = match catch(|| block_on(lazy_refresh_gas_fee_estimate())) {
        Err(m) => return crate::vh::fail(r.section, "traps", &format!("{m}: {show}")),
        Ok(x) => x,
    };
    let after = STATE.with(|c| c.borrow().as_ref().unwrap().last_transaction_price_estimate.clone());
    if calls.get() == 0 {
        r.check(got.is_none() || age.is_some_and(|a| a < 30_000_000_000), "a cached estimate is used only while fresh", || format!("{show} gave {got:?}"));
        if got.is_some() {
            r.eq(got.clone(), Some(cached.clone()), "the cached estimate is given", || show.clone());
        }
        r.check(got.is_some(), "an estimate is available or fetched", || show.clone());
        r.eq(after, before, "the cache is kept", || show.clone());
        return;
    }
    let out = match &got { Some(e) => Ok(e.clone()), None => Err(()) };
    if good {
        if let Some(w) = wrong(&bases, &rewards, min, &out) {
            crate::vh::fail(r.section, w, &format!("{show} gave {got:?}"));
        }
    } else {
        r.check(got.is_none(), "no price without an answer", || format!("{show} gave {got:?}"));
    }
    match &got {
        None => r.eq(after, before, "a failed refresh does not make an old estimate fresh", || show.clone()),
        Some(e) => {
            r.check(after.as_ref().is_some_and(|(t, x)| x == e && *t >= now as u64 && *t < now as u64 + 100_000), "the new estimate is cached with its time", || format!("{after:?}: {show}"));
        }
    }
}

pub fn run(r: &mut Run) {
    r.repeat(1500, 400_000, |r| {
        est(r);
        price(r);
        lazy(r);
    });
}
