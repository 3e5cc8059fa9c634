//@ in src/rpc_client/mod.rs as crate::rpc_client
// every request of the client against random tables of provider answers
use super::*;
use crate::vh::{block_on, catch, Rng, Run};
use crate::vhb;
use candid::{encode_one, CandidType};
use evm_rpc_types::{Block as EB, FeeHistory as EF, Hex, LogEntry as EL, ProviderError, RpcError, SendRawTransactionStatus as ES, TransactionReceipt as ER, ValidationError};
use std::cell::RefCell;
use std::rc::Rc;

type Table<T> = EvmMultiRpcResult<T>;

fn error(r: &mut Rng) -> RpcError {
    match r.below(4) {
        0 => RpcError::HttpOutcallError(HttpOutcallError::IcError { code: RejectionCode::SysTransient, message: format!("m{}", r.below(2)) }),
        1 => RpcError::JsonRpcError(evm_rpc_types::JsonRpcError { code: r.below(3) as i64 - 1, message: "j".into() }),
        2 => RpcError::ProviderError(ProviderError::NoPermission),
        _ => RpcError::ValidationError(ValidationError::Custom("v".into())),
    }
}

fn table<T>(r: &mut Rng, mut f: impl FnMut(&mut Rng) -> T) -> Table<T> {
    if r.chance(4) {
        return EvmMultiRpcResult::Consistent(if r.chance(3) { Err(error(r)) } else { Ok(f(r)) });
    }
    let errs = *r.pick(&[0u64, 2, 3, 8]);
    let n = r.below(7);
    let mut v: Vec<_> = (0..n).map(|i| (EvmRpcService::Provider(i), if errs > 0 && r.chance(errs) { Err(error(r)) } else { Ok(f(r)) })).collect();
    if r.bool() {
        v.reverse();
    }
    EvmMultiRpcResult::Inconsistent(v)
}

/// what the rule accepts; `map` turns an answer into the value the minter uses (None: not usable)
#[derive(Clone, Copy, PartialEq, Debug)]
enum Rule {
    Equal,
    Min,
    One,
    Plural,
}

fn expect<T: Clone + PartialEq, U: Clone + PartialEq>(t: &Table<T>, rule: Rule, map: impl Fn(&T) -> Option<U>, key: impl Fn(&U) -> u128) -> Result<U, bool> {
    // Err(true): a consistent error
    match t {
        EvmMultiRpcResult::Consistent(Ok(x)) => map(x).ok_or(true),
        EvmMultiRpcResult::Consistent(Err(_)) => Err(true),
        EvmMultiRpcResult::Inconsistent(l) => {
            let raw: Vec<&T> = l.iter().filter_map(|(_, x)| x.as_ref().ok()).collect();
            let oks: Vec<U> = raw.iter().filter_map(|x| map(x)).collect();
            match rule {
                Rule::Equal if raw.len() >= 2 && raw.iter().all(|x| *x == raw[0]) => map(raw[0]).ok_or(true),
                Rule::Min if oks.len() >= 2 => Ok(oks.iter().min_by_key(|x| key(x)).unwrap().clone()),
                Rule::One if !oks.is_empty() => Ok(oks[0].clone()),
                Rule::Plural if oks.len() >= 2 => {
                    let mut best: Vec<(usize, U)> = vec![];
                    for x in &oks {
                        if oks.iter().any(|y| key(y) == key(x) && y != x) {
                            return Err(false);
                        }
                        if !best.iter().any(|(_, y)| y == x) {
                            best.push((oks.iter().filter(|y| *y == x).count(), x.clone()));
                        }
                    }
                    best.sort_by_key(|(n, _)| *n);
                    let top = best.pop().unwrap();
                    match best.pop() {
                        Some((n, _)) if n == top.0 => Err(false),
                        _ => Ok(top.1),
                    }
                }
                _ => Err(false),
            }
        }
    }
}

/// run a request; the providers answer with `t`
fn ask<T: CandidType, R>(t: &Table<T>, f: impl FnOnce(&RpcClient) -> R) -> (Vec<(String, Vec<u8>)>, Result<R, String>) {
    let seen = Rc::new(RefCell::new(vec![]));
    let (s2, bytes) = (seen.clone(), encode_one(t).unwrap());
    ic0::host::on_call(Box::new(move |c| {
        s2.borrow_mut().push((c.method.clone(), c.args.clone()));
        Ok(bytes.clone())
    }));
    let client = RpcClient::from_state_all_providers(&vhb::state());
    let out = catch(|| f(&client));
    let s = seen.borrow().clone();
    (s, out)
}

fn compare<T: Clone + PartialEq + std::fmt::Debug, U: Clone + PartialEq + std::fmt::Debug>(
    r: &mut Run, what: &str, t: &Table<T>, rule: Rule, map: impl Fn(&T) -> Option<U>, key: impl Fn(&U) -> u128, got: Result<Result<U, MultiCallError<U>>, String>) {
    let show = format!("{what}: providers answered {t:?}");
    r.case(&show);
    let want = expect(t, rule, &map, key);
    match (want, got) {
        (w, Err(m)) => {
            if w.is_ok() {
                crate::vh::fail(r.section, "an agreed answer traps", &format!("{m}: {show}"));
            }
        }
        (Ok(w), Ok(Ok(g))) => {
            if rule == Rule::One {
                let given = match t {
                    EvmMultiRpcResult::Consistent(_) => g == w,
                    EvmMultiRpcResult::Inconsistent(l) => l.iter().any(|(_, x)| x.as_ref().ok().and_then(&map) == Some(g.clone())),
                };
                r.check(given, "the accepted value was answered", || show.clone());
            } else {
                r.eq(g, w, "accepted value", || show.clone());
            }
        }
        (Ok(w), Ok(Err(e))) => crate::vh::fail(r.section, "an agreed answer is refused", &format!("{w:?} refused as {e:?}: {show}")),
        (Err(_), Ok(Ok(g))) => crate::vh::fail(r.section, "accepted without agreement", &format!("{g:?}: {show}")),
        (Err(_), Ok(Err(e))) => {
            // a consistent error is passed on unchanged
            if let EvmMultiRpcResult::Consistent(Err(x)) = t {
                let same = match (x, &e) {
                    (RpcError::HttpOutcallError(a), MultiCallError::ConsistentHttpOutcallError(b)) => a == b,
                    (RpcError::JsonRpcError(a), MultiCallError::ConsistentJsonRpcError { code, message }) => a.code == *code && a.message == *message,
                    (RpcError::ProviderError(_) | RpcError::ValidationError(_), MultiCallError::ConsistentEvmRpcCanisterError(_)) => true,
                    _ => false,
                };
                r.check(same, "a consistent error is passed on", || format!("{e:?}: {show}"));
            }
        }
    }
}

fn n(x: u64) -> Nat256 {
    Nat256::from(x)
}
fn h32(x: u64) -> Hex32 {
    Hex32::from(vhb::hash(x).0)
}
fn hex() -> Hex {
    Hex::from(vec![1u8, 2])
}

fn block(i: u64, fee: Option<u64>) -> EB {
    EB {
        base_fee_per_gas: fee.map(n), number: n(i), difficulty: None, extra_data: hex(), gas_limit: n(1), gas_used: n(1), hash: h32(1), logs_bloom: evm_rpc_types::Hex256::from([0u8; 256]),
        miner: Hex20::from([1u8; 20]), mix_hash: h32(2), nonce: n(0), parent_hash: h32(3), receipts_root: h32(4), sha3_uncles: h32(5), size: n(1), state_root: h32(6), timestamp: n(9),
        total_difficulty: None, transactions: vec![], transactions_root: None, uncles: vec![],
    }
}

fn log(i: u64, k: u64) -> EL {
    EL {
        address: Hex20::from(vhb::addr(i).into_bytes()), topics: (0..k).map(h32).collect(), data: Hex::from(vec![i as u8; k as usize]), block_number: Some(n(i + 1)), transaction_hash: Some(h32(i)),
        transaction_index: Some(n(i + 2)), block_hash: Some(h32(i + 3)), log_index: Some(n(i + 4)), removed: i % 7 == 6,
    }
}

fn log_value(l: &EL) -> LogEntry {
    LogEntry {
        address: Address::new(l.address.clone().into()), topics: l.topics.iter().map(|t| FixedSizeData(t.clone().into())).collect(), data: Data(l.data.clone().into()),
        block_number: l.block_number.clone().map(BlockNumber::from), transaction_hash: l.transaction_hash.clone().map(|h| Hash(h.into())),
        transaction_index: l.transaction_index.clone().map(|i| Quantity::from_be_bytes(i.into_be_bytes())), block_hash: l.block_hash.clone().map(|h| Hash(h.into())),
        log_index: l.log_index.clone().map(LogIndex::from), removed: l.removed,
    }
}

fn receipt(i: u64, st: Option<u64>) -> ER {
    ER {
        block_hash: h32(i), block_number: n(i + 1), effective_gas_price: n(i + 2), gas_used: n(i + 3), status: st.map(n), transaction_hash: h32(i + 4), contract_address: None, from: Hex20::from([1u8; 20]),
        logs: vec![], logs_bloom: evm_rpc_types::Hex256::from([0u8; 256]), to: None, transaction_index: n(0), tx_type: serde_json::from_str("\"0x02\"").unwrap(),
    }
}

fn receipt_value(x: &Option<ER>) -> Option<Option<TransactionReceipt>> {
    let Some(x) = x else { return Some(None) };
    let st = x.status.clone().map(|s| u128::from_be_bytes(s.into_be_bytes()[16..].try_into().unwrap()));
    let status = match st {
        Some(0) => TransactionStatus::Failure,
        Some(1) => TransactionStatus::Success,
        _ => return None,
    };
    Some(Some(TransactionReceipt {
        block_hash: Hash(x.block_hash.clone().into()), block_number: BlockNumber::from(x.block_number.clone()), effective_gas_price: WeiPerGas::from(x.effective_gas_price.clone()),
        gas_used: GasAmount::from(x.gas_used.clone()), status, transaction_hash: Hash(x.transaction_hash.clone().into()),
    }))
}

fn fees(i: u64, k: u64) -> EF {
    EF { oldest_block: n(i), base_fee_per_gas: (0..k + 1).map(n).collect(), gas_used_ratio: vec![], reward: (0..k).map(|j| vec![n(j + i)]).collect() }
}
fn fees_value(x: &Option<EF>) -> Option<FeeHistory> {
    let x = x.as_ref()?;
    Some(FeeHistory {
        oldest_block: BlockNumber::from(x.oldest_block.clone()), base_fee_per_gas: x.base_fee_per_gas.iter().cloned().map(WeiPerGas::from).collect(),
        reward: x.reward.iter().map(|l| l.iter().cloned().map(WeiPerGas::from).collect()).collect(),
    })
}

pub fn run(r: &mut Run) {
    r.repeat(120, 4000, |r| {
        let pool = 1 + r.rng.below(3);
        match r.rng.below(7) {
            0 | 1 => {
                let t = table(&mut r.rng, |g| n(g.below(pool)));
                let fin = r.rng.bool();
                let (seen, got) = ask(&t, |c| block_on(async { if fin { c.get_finalized_transaction_count(vhb::addr(1)).await } else { c.get_latest_transaction_count(vhb::addr(1)).await } }));
                let (_, _, args): (evm_rpc_types::RpcServices, Option<EvmRpcConfig>, EvmGetTransactionCountArgs) = candid::decode_args(&seen[0].1).unwrap();
                let tag = if fin { EvmBlockTag::Finalized } else { EvmBlockTag::Latest };
                r.check(args.block == tag && args.address == Hex20::from(vhb::addr(1).into_bytes()), "the count of the address at the block", || format!("{args:?}"));
                compare(r, if fin { "finalized count" } else { "latest count" }, &t, if fin { Rule::Equal } else { Rule::Min }, |x| Some(TransactionCount::from(u64::try_from(x.as_ref().0.clone()).unwrap())),
                        |x| u128::from_be_bytes(x.to_be_bytes()[16..].try_into().unwrap()), got);
            }
            2 => {
                let t = table(&mut r.rng, |g| block(g.below(pool), if g.chance(20) { None } else { Some(g.below(2)) }));
                let (_, got) = ask(&t, |c| block_on(c.get_block_by_number(BlockSpec::Tag(BlockTag::Finalized))));
                compare(r, "block", &t, Rule::Equal, |b| b.base_fee_per_gas.clone().map(|f| Block { number: BlockNumber::from(b.number.clone()), base_fee_per_gas: Wei::from(f) }), |_| 0, got);
            }
            3 => {
                let t = table(&mut r.rng, |g| (0..g.below(3)).map(|i| log(i + g.below(pool), g.below(3))).collect::<Vec<_>>());
                let (_, got) = ask(&t, |c| block_on(c.get_logs(GetLogsParam { from_block: BlockSpec::Tag(BlockTag::Finalized), to_block: BlockSpec::Tag(BlockTag::Finalized), address: vec![vhb::addr(2)], topics: vec![] })));
                compare(r, "logs", &t, Rule::Equal, |l| Some(l.iter().map(log_value).collect::<Vec<_>>()), |_| 0, got);
            }
            4 => {
                let t = table(&mut r.rng, |g| if g.chance(4) { None } else { Some(receipt(g.below(pool), *g.pick(&[Some(0), Some(1), Some(1), None, Some(2)]))) });
                let (_, got) = ask(&t, |c| block_on(c.get_transaction_receipt(vhb::hash(3))));
                compare(r, "receipt", &t, Rule::Equal, receipt_value, |_| 0, got);
            }
            5 => {
                let odd = r.rng.chance(4);
                let t = table(&mut r.rng, |g| if g.chance(12) { None } else { Some(fees(g.below(pool + 1), if odd { 1 + g.below(2) } else { 2 })) });
                let (_, got) = ask(&t, |c| block_on(c.fee_history(FeeHistoryParams { block_count: crate::rpc_declrations::Quantity::from(5u8), highest_block: BlockSpec::Tag(BlockTag::Latest), reward_percentiles: vec![50] })));
                compare(r, "fee history", &t, Rule::Plural, fees_value, |f| u128::from_be_bytes(f.oldest_block.to_be_bytes()[16..].try_into().unwrap()), got);
            }
            _ => {
                let t = table(&mut r.rng, |g| match g.below(4) { 0 => ES::Ok(Some(h32(g.below(pool)))), 1 => ES::NonceTooLow, 2 => ES::NonceTooHigh, _ => ES::InsufficientFunds });
                let (_, got) = ask(&t, |c| block_on(c.send_raw_transaction("0x00".to_string())));
                compare(r, "send", &t, Rule::One, |s| Some(SendRawTransactionResult::from(s.clone())), |_| 0, got);
            }
        }
    });
}
