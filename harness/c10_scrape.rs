//@ in src/deposit.rs as crate::deposit
// whole scraping runs against a simulated chain behind the RPC canister: which blocks are asked for, in which
// order, what is registered and where the last-scraped marker ends up
use super::*;
use crate::evm_config::EvmNetwork;
use crate::state::STATE;
use crate::vh::{block_on, catch, Rng, Run};
use crate::vhb;
use candid::encode_one;
use evm_rpc_types as e;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::rc::Rc;

const TOPIC: [u8; 32] = hex_literal::hex!("deaddf8708b62ae1bf8ec4693b523254aa961b2da6bc5be57f3188ee784d6275");
const NETS: [(EvmNetwork, u64); 10] = [
    (EvmNetwork::Ethereum, 0), (EvmNetwork::Sepolia, 0), (EvmNetwork::ArbitrumOne, 12), (EvmNetwork::BSC, 20), (EvmNetwork::BSCTestnet, 0),
    (EvmNetwork::Polygon, 0), (EvmNetwork::Optimism, 12), (EvmNetwork::Base, 12), (EvmNetwork::Avalanche, 12), (EvmNetwork::Fantom, 12),
];

#[derive(Clone, Copy, Debug, PartialEq)]
enum Kind { Good, Removed, BadPrincipal }

fn nat(n: u64) -> e::Nat256 {
    e::Nat256::from(n)
}
fn num(t: &Option<e::BlockTag>) -> Option<u64> {
    match t { Some(e::BlockTag::Number(n)) => u64::try_from(ethnum::u256::from_be_bytes(n.clone().into_be_bytes())).ok(), _ => None }
}
fn word(n: u64) -> [u8; 32] {
    let mut w = [0u8; 32];
    w[24..].copy_from_slice(&n.to_be_bytes());
    w
}
fn txh(block: u64, i: u64) -> [u8; 32] {
    let mut w = word(block);
    w[0] = 1 + i as u8;
    w
}
fn log_of(block: u64, i: u64, k: Kind) -> e::LogEntry {
    let mut p = [0u8; 32];
    p[0] = if k == Kind::BadPrincipal { 31 } else { 10 };
    p[1..9].copy_from_slice(&(block + 1).to_be_bytes());
    e::LogEntry {
        address: e::Hex20::from(vhb::addr(77).into_bytes()),
        topics: vec![e::Hex32::from(TOPIC), e::Hex32::from([0; 32]), e::Hex32::from(word(1_000_000_000 + block)), e::Hex32::from(p)],
        data: e::Hex::from([word(5), word(0)].concat()),
        block_number: Some(nat(block)),
        transaction_hash: Some(e::Hex32::from(txh(block, i))),
        transaction_index: Some(nat(i)),
        block_hash: Some(e::Hex32::from(word(block))),
        log_index: Some(nat(i)),
        removed: k == Kind::Removed,
    }
}
fn block_of(n: u64) -> e::Block {
    e::Block {
        base_fee_per_gas: Some(nat(7)), number: nat(n), difficulty: None, extra_data: e::Hex::from(vec![]), gas_limit: nat(1), gas_used: nat(1), hash: e::Hex32::from(word(n)),
        logs_bloom: e::Hex256::from([0; 256]), miner: e::Hex20::from([0; 20]), mix_hash: e::Hex32::from([0; 32]), nonce: nat(0), parent_hash: e::Hex32::from([0; 32]),
        receipts_root: e::Hex32::from([0; 32]), sha3_uncles: e::Hex32::from([0; 32]), size: nat(1), state_root: e::Hex32::from([0; 32]), timestamp: nat(1),
        total_difficulty: None, transactions: vec![], transactions_root: None, uncles: vec![],
    }
}

#[derive(Default)]
struct Seen { tags: Vec<String>, asked: Vec<(u64, u64, &'static str)>, odd: Vec<String>, skip_ok: Vec<u64> }

fn other<T>(g: &mut Rng) -> e::RpcResult<T> {
    Err(match g.below(4) {
        0 => e::RpcError::HttpOutcallError(e::HttpOutcallError::IcError { code: ic_cdk::api::call::RejectionCode::SysTransient, message: "size limit or something".into() }),
        1 => e::RpcError::HttpOutcallError(e::HttpOutcallError::IcError { code: ic_cdk::api::call::RejectionCode::SysFatal, message: "Connection refused".into() }),
        2 => e::RpcError::JsonRpcError(e::JsonRpcError { code: -32000, message: "size limit".into() }),
        _ => e::RpcError::ProviderError(e::ProviderError::NoPermission),
    })
}

fn scrape(r: &mut Run) {
    let (net, margin) = NETS[r.rng.below(10) as usize];
    let start = if r.rng.chance(6) { 0 } else { 1_000_000 + r.rng.below(1 << 40) };
    let span = match r.rng.below(6) { 0 => r.rng.below(3), 1 => 999 + r.rng.below(4), 2 => r.rng.below(5000), 3 => 1999 + r.rng.below(3), _ => r.rng.below(60) };
    let head = if r.rng.chance(10) { start.saturating_sub(r.rng.below(30)) } else { start + span + if r.rng.bool() { margin } else { 0 } };
    let end = head.checked_sub(margin);
    // deposits, a few blocks with more of them than one response can carry
    let mut chain: BTreeMap<u64, Vec<Kind>> = BTreeMap::new();
    for _ in 0..r.rng.below(14) {
        let b = start.saturating_sub(2) + r.rng.below(span + 30);
        let most = if r.rng.chance(6) { 7 } else { 2 };
        let n = 1 + r.rng.below(most);
        chain.insert(b, (0..n).map(|_| match r.rng.below(10) { 0 => Kind::Removed, 1 => Kind::BadPrincipal, _ => Kind::Good }).collect());
    }
    let cap = 1 + r.rng.below(6) as usize;
    let fail_at = if r.rng.chance(3) { Some(r.rng.below(6)) } else { None };
    let head_fails = if r.rng.chance(8) { r.rng.below(4) } else { 0 };
    let split = r.rng.bool();
    let mut s = vhb::state();
    s.evm_network = net;
    s.helper_contract_address = Some(vhb::addr(77));
    s.last_scraped_block_number = BlockNumber::from(start);
    let tok = vhb::token(3);
    let toks = r.rng.bool();
    if toks {
        let mut t = tok.clone();
        t.chain_id = net;
        s.record_add_erc20_token(t);
    }
    STATE.with(|c| *c.borrow_mut() = Some(s));
    ic0::host::TIME.with(|t| t.set(1_800_000_000_000_000_000));
    let seen = Rc::new(RefCell::new(Seen::default()));
    let (seen2, chain2, mut g) = (seen.clone(), chain.clone(), Rng::new(r.rng.u64()));
    let (mut heads, mut logs) = (0, 0);
    let mut want_tok = [0u8; 32];
    want_tok[12..].copy_from_slice(tok.erc20_contract_address.as_ref());
    ic0::host::on_call(Box::new(move |call| {
        let mut seen = seen2.borrow_mut();
        let svc = |i: u64| e::RpcService::Provider(i);
        if call.method == "eth_getBlockByNumber" {
            let (_, _, tag): (e::RpcServices, Option<e::RpcConfig>, e::BlockTag) = candid::decode_args(&call.args).unwrap();
            seen.tags.push(format!("{tag:?}"));
            heads += 1;
            let x: e::MultiRpcResult<e::Block> = e::MultiRpcResult::Consistent(if heads <= head_fails { other(&mut g) } else { Ok(block_of(head)) });
            return Ok(encode_one(&x).unwrap());
        }
        if call.method != "eth_getLogs" {
            seen.odd.push(format!("calls {}", call.method));
            return Err((4, "no such method".into()));
        }
        let (_, _, q): (e::RpcServices, Option<e::RpcConfig>, e::GetLogsArgs) = candid::decode_args(&call.args).unwrap();
        let (a, b) = match (num(&q.from_block), num(&q.to_block)) {
            (Some(a), Some(b)) => (a, b),
            _ => { seen.odd.push(format!("range {:?} {:?}", q.from_block, q.to_block)); (0, 0) }
        };
        let addr: Vec<[u8; 20]> = q.addresses.iter().map(|x| x.clone().into()).collect();
        if addr != vec![vhb::addr(77).into_bytes()] { seen.odd.push(format!("addresses {:?}", q.addresses)); }
        let mut topics: Vec<Vec<[u8; 32]>> = q.topics.unwrap_or_default().iter().map(|l| l.iter().map(|x| x.clone().into()).collect()).collect();
        topics.iter_mut().for_each(|l| l.sort());
        let mut want = vec![vec![TOPIC], if toks { vec![[0; 32], want_tok] } else { vec![[0; 32]] }];
        want.iter_mut().for_each(|l| l.sort());
        if topics != want { seen.odd.push(format!("topics {topics:?}")); }
        logs += 1;
        let out: Vec<e::LogEntry> = chain2.range(a..=b.max(a)).flat_map(|(n, l)| l.iter().enumerate().map(|(i, k)| log_of(*n, i as u64, *k))).collect();
        let (what, res): (_, e::RpcResult<Vec<e::LogEntry>>) = if fail_at == Some(logs - 1) {
            ("error", other(&mut g))
        } else if out.len() > cap {
            if a == b { seen.skip_ok.push(a); }
            ("large", Err(e::RpcError::HttpOutcallError(e::HttpOutcallError::IcError { code: ic_cdk::api::call::RejectionCode::SysFatal, message: "Http body exceeds size limit of 2000000 bytes.".into() })))
        } else {
            ("ok", Ok(out))
        };
        seen.asked.push((a, b, what));
        let res = if split { e::MultiRpcResult::Inconsistent(vec![(svc(1), res.clone()), (svc(2), res)]) } else { e::MultiRpcResult::Consistent(res) };
        Ok(encode_one(&res).unwrap())
    }));
    let show = format!("{net:?}, scraped up to {start}, head {head}, at most {cap} logs per response, error on query {fail_at:?}, {head_fails} failing head queries, logs {chain:?}");
    r.case(&show);
    let done = catch(|| block_on(scrape_logs()));
    let s = STATE.with(|c| c.borrow().clone().unwrap());
    let seen = seen.borrow();
    let show = || format!("{show}; queries {:?}; marker {}", seen.asked, s.last_scraped_block_number);
    if let Err(m) = &done {
        return crate::vh::fail(r.section, "traps", &format!("{m}: {}", show()));
    }
    r.check(seen.odd.is_empty(), "the query selects the helper's deposits", || format!("{:?}: {}", seen.odd, show()));
    r.check(seen.tags.iter().all(|t| t == "Latest"), "the head is read on the configured tag", || format!("{:?}: {}", seen.tags, show()));
    // the queries visit the blocks in order; the next one starts where the blocks done end
    let end = if head_fails >= 3 { None } else { end };
    let (mut at, mut dead, mut pend) = (start, false, None);
    let mut skipped = vec![];
    for (a, b, what) in &seen.asked {
        r.check(!dead, "no query after an unrecoverable error", show);
        r.check(*a == at + 1, "the next query starts after the blocks done", || format!("[{a}, {b}]: {}", show()));
        r.check(a <= b && b - a < 1000 && Some(*b) <= end && end.is_some(), "a query stays within the limits", || format!("[{a}, {b}]: {}", show()));
        if let Some(p) = pend { r.check(*b < p, "a response that is too large is split", || format!("[{a}, {b}]: {}", show())); }
        pend = None;
        match *what {
            "ok" => at = *b,
            "large" if a == b => { at = *b; skipped.push(*b); }
            "large" => pend = Some(*b),
            _ => dead = true,
        }
    }
    if !dead {
        r.check(pend.is_none() && (end.is_none() || at == end.unwrap().max(start)), "everything up to the end is visited", || format!("done up to {at}: {}", show()));
    }
    r.eq(s.last_scraped_block_number, BlockNumber::from(at), "the marker covers exactly the blocks done", show);
    r.eq(s.skipped_blocks.iter().copied().collect::<Vec<_>>(), skipped.iter().map(|b| BlockNumber::from(*b)).collect::<Vec<_>>(), "skipped blocks are recorded", show);
    let mut want: Vec<_> = vec![];
    let mut bad: Vec<_> = vec![];
    for (n, l) in chain.range(start + 1..=at.max(start + 1)) {
        if *n > at || skipped.contains(n) { continue; }
        for (i, k) in l.iter().enumerate() {
            let src = crate::deposit_logs::EventSource { transaction_hash: crate::rpc_declrations::Hash(txh(*n, i as u64)), log_index: crate::numeric::LogIndex::from(i as u64) };
            if *k == Kind::Good { want.push(src) } else { bad.push(src) }
        }
    }
    want.sort();
    bad.sort();
    r.eq(s.events_to_mint.keys().copied().collect::<Vec<_>>(), want, "the deposits of the blocks done are registered", show);
    r.eq(s.invalid_events.keys().copied().collect::<Vec<_>>(), bad, "malformed logs are recorded as invalid", show);
}

pub fn run(r: &mut Run) {
    r.repeat(400, 200_000, scrape);
}
