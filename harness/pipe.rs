// Whole rounds of withdrawal processing (process_retrieve_tokens_requests) against a simulated chain behind the
// RPC canister and a real signing key: what is sent is decoded here, from its bytes, and followed to the end.
#[allow(unused_imports)]
use super::*;
use crate::numeric::WeiPerGas;
use crate::state::audit::{apply_state_transition, EventType};
use crate::state::{State, TaskType, STATE};
use crate::withdraw::process_retrieve_tokens_requests;
use crate::vh::{block_on, catch, Rng, Run};
use crate::vhb;
use candid::encode_one;
use evm_rpc_types as e;
use std::cell::RefCell;
use std::collections::{BTreeMap as Map, BTreeSet as Set};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
struct Tx { nonce: u64, prio: u128, max: u128, gas: u128, to: Vec<u8>, value: u128, data: Vec<u8>, hash: [u8; 32] }

#[derive(Clone, Debug, PartialEq)]
struct Mined { hash: [u8; 32], ok: bool, gas: u128, price: u128 }

#[derive(Default)]
struct World {
    g: Option<Rng>,
    clean: bool,
    latest: u64,
    finalized: u64,
    base: u128,
    prio: u128,
    pool: Map<u64, Vec<Tx>>,
    mined: Map<u64, Mined>,
    // what was seen in this round
    told: Option<u64>,
    told_final: Option<u64>,
    sent: Vec<Tx>,
    signed: u64,
    refused: u64,
    missing: bool,
    unsure: bool,
    calls: Vec<String>,
    odd: Vec<(&'static str, String)>,
}

fn nat(n: u128) -> e::Nat256 {
    e::Nat256::from(n)
}
fn keccak(b: &[u8]) -> [u8; 32] {
    ic_sha3::Keccak256::hash(b)
}
fn num(b: &[u8]) -> Option<u128> {
    if b.len() > 16 || b.first() == Some(&0) { return None; }
    Some(b.iter().fold(0, |a, x| a << 8 | *x as u128))
}
fn word(b: &[u8]) -> [u8; 32] {
    let mut w = [0; 32];
    if b.len() <= 32 { w[32 - b.len()..].copy_from_slice(b); }
    w
}
fn address() -> [u8; 20] {
    keccak(&ic_crypto_secp256k1::host::public()[1..])[12..].try_into().unwrap()
}

/// a raw transaction as a node reads it: type 2, twelve fields, chain id of the network, signed by the minter
fn decode(hex_text: &str, chain: u64) -> Result<Tx, String> {
    let raw = hex::decode(hex_text.strip_prefix("0x").ok_or("no 0x")?).map_err(|x| x.to_string())?;
    if raw.first() != Some(&2) { return Err("not an EIP-1559 transaction".into()); }
    let l = rlp::Rlp::new(&raw[1..]);
    if !l.is_list() || l.item_count() != Ok(12) || l.as_raw().len() + 1 != raw.len() { return Err("not a list of twelve fields".into()); }
    let f = |i: usize| l.at(i).and_then(|x| x.data().map(|d| d.to_vec())).map_err(|x| x.to_string());
    let n = |i: usize| f(i).and_then(|d| num(&d).ok_or(format!("field {i} is no number")));
    if n(0)? != chain as u128 { return Err(format!("chain id {}", n(0)?)); }
    if l.at(8).map(|x| x.is_list() && x.item_count() == Ok(0)) != Ok(true) { return Err("access list".into()); }
    let mut s = rlp::RlpStream::new_list(9);
    for i in 0..9 { s.append_raw(l.at(i).unwrap().as_raw(), 1); }
    let digest = keccak(&[&[2u8][..], &s.out()].concat());
    let who = ic_crypto_secp256k1::host::recover(&digest, &word(&f(10)?), &word(&f(11)?), n(9)? == 1);
    if n(9)? > 1 || who.map(|k| keccak(&k[1..])[12..].to_vec()) != Some(address().to_vec()) { return Err("not signed by the minter".into()); }
    Ok(Tx { nonce: n(1)? as u64, prio: n(2)?, max: n(3)?, gas: n(4)?, to: f(5)?, value: n(6)?, data: f(7)?, hash: keccak(&raw) })
}

impl World {
    fn g(&mut self) -> &mut Rng {
        self.g.as_mut().unwrap()
    }
    fn mine(&mut self) {
        let n = self.latest;
        let Some(txs) = self.pool.get(&n).cloned() else { return };
        let g = self.g();
        let t = g.pick(&txs).clone();
        let ok = !g.chance(3);
        let gas = if t.data.is_empty() { t.gas } else { 30_000 + g.below(35_001) as u128 };
        let price = t.max - g.below(3).min(t.max as u64) as u128;
        self.mined.insert(n, Mined { hash: t.hash, ok, gas, price });
        self.latest += 1;
    }
    fn trouble(&mut self, one_in: u64) -> bool {
        !self.clean && self.g().chance(one_in)
    }
    fn count(&mut self, n: u64, fin: bool) -> e::MultiRpcResult<e::Nat256> {
        if self.trouble(6) {
            if self.g().bool() && n > 0 {
                // providers that disagree: an error for the finalized count, the smallest for the latest
                if !fin { self.told = Some(n - 1); }
                let mut v = vec![(e::RpcService::Provider(1), Ok(nat(n as u128))), (e::RpcService::Provider(2), Ok(nat(n as u128 - 1))), (e::RpcService::Provider(3), Ok(nat(n as u128)))];
                if self.g().bool() { v.swap(0, 1); }
                return e::MultiRpcResult::Inconsistent(v);
            }
            return e::MultiRpcResult::Consistent(Err(e::RpcError::ProviderError(e::ProviderError::NoPermission)));
        }
        if fin { self.told_final = Some(n) } else { self.told = Some(n) }
        if self.g().bool() {
            e::MultiRpcResult::Consistent(Ok(nat(n as u128)))
        } else {
            e::MultiRpcResult::Inconsistent(vec![(e::RpcService::Provider(1), Ok(nat(n as u128))), (e::RpcService::Provider(3), Err(e::RpcError::ProviderError(e::ProviderError::NoPermission))), (e::RpcService::Provider(2), Ok(nat(n as u128)))])
        }
    }
    fn receipt(&mut self, h: [u8; 32]) -> e::MultiRpcResult<Option<e::TransactionReceipt>> {
        let fail = || Err(e::RpcError::ProviderError(e::ProviderError::NoPermission));
        let m = self.mined.iter().find(|(n, m)| m.hash == h && **n < self.latest).map(|(_, m)| m.clone());
        let x = m.map(|m| e::TransactionReceipt {
            block_hash: e::Hex32::from(word(&[9])), block_number: nat(50), effective_gas_price: nat(m.price), gas_used: nat(m.gas), status: Some(nat(m.ok as u128)), transaction_hash: e::Hex32::from(m.hash),
            contract_address: None, from: e::Hex20::from(address()), logs: vec![], logs_bloom: e::Hex256::from([0; 256]), to: None, transaction_index: nat(0), tx_type: e::HexByte::from(2u8),
        });
        let p = |i| e::RpcService::Provider(i);
        if self.trouble(8) {
            self.unsure = true;
            let other = match &x {
                Some(y) => { let mut y = y.clone(); if self.g().bool() { y.status = Some(nat(if y.status == Some(nat(0)) { 1 } else { 0 })) } else { y.gas_used = nat(7) }; Some(y) }
                None => None,
            };
            return match self.g().below(4) {
                0 => e::MultiRpcResult::Consistent(fail()),
                1 if other.is_some() => e::MultiRpcResult::Inconsistent(vec![(p(1), Ok(x.clone())), (p(2), Ok(other)), (p(3), Ok(x))]),
                2 if x.is_some() => e::MultiRpcResult::Inconsistent(vec![(p(1), Ok(x.clone())), (p(2), Ok(None)), (p(3), Ok(x))]),
                3 => e::MultiRpcResult::Inconsistent(vec![(p(1), Ok(x)), (p(2), fail())]),
                _ => { if x.is_some() { self.missing = true; } self.unsure = false; e::MultiRpcResult::Consistent(Ok(None)) }
            };
        }
        if self.g().bool() { e::MultiRpcResult::Consistent(Ok(x)) } else { e::MultiRpcResult::Inconsistent(vec![(p(1), Ok(x.clone())), (p(2), fail()), (p(3), Ok(x))]) }
    }
    fn call(&mut self, call: &ic0::host::Call) -> Result<Vec<u8>, (i32, String)> {
        self.calls.push(call.method.clone());
        if self.g().chance(6) && !self.clean { self.mine(); }
        match call.method.as_str() {
            "eth_feeHistory" => {
                if self.trouble(8) { return Ok(encode_one(&e::MultiRpcResult::<e::FeeHistory>::Consistent(Err(e::RpcError::ProviderError(e::ProviderError::NoPermission)))).unwrap()); }
                let h = e::FeeHistory { oldest_block: nat(3), base_fee_per_gas: vec![nat(1), nat(self.base)], gas_used_ratio: vec![0.5], reward: vec![vec![nat(self.prio)]] };
                Ok(encode_one(&e::MultiRpcResult::Consistent(Ok(h))).unwrap())
            }
            "eth_getTransactionCount" => {
                let (_, _, q): (e::RpcServices, Option<e::RpcConfig>, e::GetTransactionCountArgs) = candid::decode_args(&call.args).unwrap();
                if <[u8; 20]>::from(q.address.clone()) != address() { self.odd.push(("C03", format!("asks for the transactions of {:?}", q.address))); }
                match q.block {
                    e::BlockTag::Latest => { let n = self.latest; Ok(encode_one(&self.count(n, false)).unwrap()) }
                    e::BlockTag::Finalized => {
                        let lag = if self.clean { 0 } else { self.g().below(2) };
                        self.finalized = self.finalized.max(self.latest.saturating_sub(lag));
                        let n = self.finalized;
                        Ok(encode_one(&self.count(n, true)).unwrap())
                    }
                    t => { self.odd.push(("C03", format!("asks for the transaction count at {t:?}"))); Err((4, "no".into())) }
                }
            }
            "sign_with_ecdsa" => {
                if self.trouble(5) { self.refused += 1; return Err((2, "busy".into())); }
                let (a,): (ic_management_canister_types::SignWithECDSAArgs,) = candid::decode_args(&call.args).unwrap();
                self.signed += 1;
                Ok(encode_one(&ic_management_canister_types::SignWithECDSAReply { signature: ic_crypto_secp256k1::host::sign(&a.message_hash) }).unwrap())
            }
            "eth_sendRawTransaction" => {
                let (_, _, raw): (e::RpcServices, Option<e::RpcConfig>, String) = candid::decode_args(&call.args).unwrap();
                let t = match decode(&raw, 11155111) {
                    Ok(t) => t,
                    Err(m) => { self.odd.push(("C04", format!("sends something no node accepts ({m}): {raw}"))); return Err((4, "no".into())); }
                };
                self.sent.push(t.clone());
                let p = |i| e::RpcService::Provider(i);
                let k = if self.clean { 0 } else { self.g().below(6) };
                if k < 4 {
                    let v = self.pool.entry(t.nonce).or_default();
                    if !v.contains(&t) { v.push(t.clone()); }
                }
                let ok = Ok(e::SendRawTransactionStatus::Ok(Some(e::Hex32::from(t.hash))));
                let low = Ok(e::SendRawTransactionStatus::NonceTooLow);
                let r = match k {
                    0 | 1 => e::MultiRpcResult::Consistent(ok),
                    2 => e::MultiRpcResult::Inconsistent(vec![(p(1), low), (p(2), ok)]),
                    3 => e::MultiRpcResult::Consistent(low),
                    4 => e::MultiRpcResult::Consistent(Ok(e::SendRawTransactionStatus::InsufficientFunds)),
                    _ => e::MultiRpcResult::Consistent(Err(e::RpcError::ProviderError(e::ProviderError::NoPermission))),
                };
                Ok(encode_one(&r).unwrap())
            }
            "eth_getTransactionReceipt" => {
                let (_, _, h): (e::RpcServices, Option<e::RpcConfig>, e::Hex32) = candid::decode_args(&call.args).unwrap();
                Ok(encode_one(&self.receipt(h.into())).unwrap())
            }
            m => { let m = format!("calls {m}"); self.odd.push(("C03", m)); Err((4, "no such method".into())) }
        }
    }
}

struct Wd { req: WithdrawalRequest, budget: u128, txs: Vec<Tx>, nonce: Option<u64>, over: bool }

fn low(w: Wei) -> u128 {
    u128::from_be_bytes(w.to_be_bytes()[16..].try_into().unwrap())
}
fn per(w: WeiPerGas) -> u128 {
    u128::from_be_bytes(w.to_be_bytes()[16..].try_into().unwrap())
}

struct P<'a> { r: &'a mut Run, tag: &'static str, log: Vec<String> }
impl<'a> P<'a> {
    fn check(&mut self, tag: &str, ok: bool, name: &str, extra: impl FnOnce() -> String) {
        if !ok && tag == self.tag {
            let h = self.log.join("; ");
            self.r.check(false, name, || format!("{} after [{h}]", extra()));
        }
    }
}

pub fn pipe(r: &mut Run, tag: &'static str) {
    r.repeat(12, 100_000, |r| history(r, tag));
}

fn history(r: &mut Run, tag: &'static str) {
    let mut s = vhb::state();
    for n in 1..3 { s.record_add_erc20_token(vhb::token(n)); }
    s.min_max_priority_fee_per_gas = WeiPerGas::from(10_u64);
    s.ecdsa_public_key = Some(ic_cdk::api::management_canister::ecdsa::EcdsaPublicKeyResponse { public_key: ic_crypto_secp256k1::host::public(), chain_code: vec![] });
    // enough native and token funds for what will be withdrawn
    let funds = 1_000_000_000_000_000u128;
    apply_state_transition(&mut s, &EventType::AcceptedDeposit(vhb::native_event(900, funds)));
    for t in 1..3 { apply_state_transition(&mut s, &EventType::AcceptedErc20Deposit(vhb::erc20_event(900 + 3 * t, t, funds))); }
    STATE.with(|c| *c.borrow_mut() = Some(s));
    ic0::host::TIME.with(|t| t.set(1_800_000_000_000_000_000));
    let w = Rc::new(RefCell::new(World { g: Some(Rng::new(r.rng.u64())), base: 100, prio: 20, ..Default::default() }));
    let w2 = w.clone();
    ic0::host::on_call(Box::new(move |c| w2.borrow_mut().call(c)));
    let mut p = P { r, tag, log: vec![] };
    let mut wds: Vec<Wd> = vec![];
    let mut burn = 1 + p.r.rng.below(50);
    let rounds = 3 + p.r.rng.below(5);
    let most = if p.r.rng.chance(4) { 9 } else { 4 };
    let mut last_refresh = 0i64;
    for round in 0..rounds + 12 {
        let clean = round >= rounds;
        {
            let mut w = w.borrow_mut();
            w.clean = clean;
            if !clean {
                let g = &mut p.r.rng;
                w.base = match g.below(4) { 0 => w.base, 1 => w.base + w.base / 8 + 1, 2 => 50 + g.below(200) as u128, _ => w.base / 2 + 1 };
                w.prio = match g.below(3) { 0 => w.prio, 1 => 1 + g.below(60) as u128, _ => w.prio + g.below(5) as u128 };
                for _ in 0..g.below(3) { w.mine(); }
            } else {
                for _ in 0..20 { w.mine(); }
            }
        }
        if !clean {
            let k = 1 + p.r.rng.below(most);
            for _ in 0..p.r.rng.below(k + 1) {
                burn += 1 + p.r.rng.below(3);
                let g = &mut p.r.rng;
                let (req, budget): (WithdrawalRequest, u128) = if g.bool() {
                    let a = match g.below(5) { 0 => g.below(3_000_000) as u128, 1 => 21_000 * (150 + g.below(200)) as u128, _ => 21_000 * (300 + g.below(3000)) as u128 + g.below(1000) as u128 };
                    (vhb::native_request(burn, a).into(), a)
                } else {
                    let a = match g.below(5) { 0 => 65_000 * (10 + g.below(200)) as u128, 1 => 65_000 * (150 + g.below(200)) as u128, _ => 65_000 * (300 + g.below(3000)) as u128 + g.below(1000) as u128 };
                    let t = 1 + g.below(2);
                    (vhb::erc20_request(burn, 3000 + burn, t, a, 1 + g.below(1_000_000) as u128).into(), a)
                };
                let ev = match req.clone() { WithdrawalRequest::Native(x) => EventType::AcceptedNativeWithdrawalRequest(x), WithdrawalRequest::Erc20(x) => EventType::AcceptedErc20WithdrawalRequest(x) };
                STATE.with(|c| apply_state_transition(c.borrow_mut().as_mut().unwrap(), &ev));
                p.log.push(match &req { WithdrawalRequest::Native(x) => format!("native {} amount {}", burn, low(x.withdrawal_amount)), WithdrawalRequest::Erc20(_) => format!("erc20 {burn} fee {budget}") });
                wds.push(Wd { req, budget, txs: vec![], nonce: None, over: false });
            }
        }
        ic0::host::TIME.with(|t| t.set(t.get() + if p.r.rng.chance(3) { 5_000_000_000 } else { 31_000_000_000 }));
        {
            let mut w = w.borrow_mut();
            w.told = None;
            w.told_final = None;
            w.sent.clear();
            w.missing = false;
            w.unsure = false;
            w.calls.clear();
            w.signed = 0;
            w.refused = 0;
        }
        // now and then the task is running already
        let busy = !clean && p.r.rng.chance(8);
        if busy { STATE.with(|c| c.borrow_mut().as_mut().unwrap().active_tasks.insert(TaskType::RetrieveEth)); }
        let before = STATE.with(|c| c.borrow().clone().unwrap());
        let out = catch(|| block_on(process_retrieve_tokens_requests()));
        let after = STATE.with(|c| c.borrow().clone().unwrap());
        let w = w.borrow();
        p.log.push(format!("round {round}{}: base {} prio {}, mined below {}, told {:?}/{:?}, calls {:?}, sent {:?}{}", if busy { " (busy)" } else { "" }, w.base, w.prio, w.latest, w.told, w.told_final, w.calls.iter().map(|m| m.trim_start_matches("eth_")).collect::<Vec<_>>(), w.sent.iter().map(|t| (t.nonce, t.prio, t.max, t.value)).collect::<Vec<_>>(), if let Err(m) = &out { format!(", trap: {m}") } else { String::new() }));
        p.r.case(p.log.last().unwrap().clone());
        for (t, m) in &w.odd { p.check(t, false, "a call the chain cannot make sense of", || m.clone()); }
        if busy {
            p.check("C13", w.calls.is_empty() && after == before, "a second run of the task goes ahead", String::new);
            p.check("C13", after.active_tasks.contains(&TaskType::RetrieveEth), "a refused run ends the running task", String::new);
            STATE.with(|c| c.borrow_mut().as_mut().unwrap().active_tasks.clear());
            if after != before || !w.calls.is_empty() { return; }
            continue;
        }
        p.check("C13", after.active_tasks.is_empty(), "the task is not released at the end", || format!("{:?}", after.active_tasks));
        // a missing receipt of a finalized transaction is the one reason to trap
        p.check("C03", out.is_ok() || w.missing, "a round traps", || format!("{out:?}"));
        let est = after.last_transaction_price_estimate.as_ref().map(|x| (per(x.1.base_fee_per_gas), per(x.1.max_priority_fee_per_gas)));
        let asked = w.calls.iter().any(|m| m == "eth_feeHistory");
        let had = before.withdrawal_transactions.has_pending_requests();
        let now = ic0::host::TIME.with(|t| t.get());
        if asked && after.last_transaction_price_estimate != before.last_transaction_price_estimate { last_refresh = now; }
        p.check("C15", !had || asked || now - last_refresh < 30_100_000_000, "an estimate is used although it is old", String::new);
        if let Some((b, q)) = est {
            p.check("C15", !asked || after.last_transaction_price_estimate == before.last_transaction_price_estimate || (b == w.base && q == w.prio.max(10)), "the estimate follows the fee history", || format!("{est:?}"));
        }
        // what was sent
        for t in &w.sent {
            let show = || format!("{t:?}");
            let found = wds.iter().position(|x| match &x.req {
                WithdrawalRequest::Native(q) => t.to == q.destination.as_ref() && t.data.is_empty(),
                WithdrawalRequest::Erc20(q) => t.to == q.erc20_contract_address.as_ref() && t.data.len() == 68 && t.data[..4] == [0xa9, 0x05, 0x9c, 0xbb] && t.data[4..16] == [0; 12] && t.data[16..36] == *q.destination.as_ref() && t.data[36..] == q.withdrawal_amount.to_be_bytes(),
            });
            let Some(i) = found else { p.check("C04", false, "a transaction that pays no withdrawal", show); return };
            let other = wds.iter().enumerate().any(|(j, x)| j != i && x.nonce == Some(t.nonce));
            p.check("C03", !other, "two withdrawals share a nonce", show);
            let x = &mut wds[i];
            p.check("C03", x.nonce.is_none() || x.nonce == Some(t.nonce), "a withdrawal is sent under two nonces", show);
            x.nonce = Some(t.nonce);
            p.check("C03", !x.over, "a finalized withdrawal is sent again", show);
            p.check("C05", w.told.is_some_and(|n| t.nonce >= n), "a transaction below the confirmed nonce is sent again", || format!("{t:?}, confirmed {:?}", w.told));
            let again = !x.txs.is_empty();
            let (gas, exact) = match &x.req { WithdrawalRequest::Native(_) => (21_000, true), WithdrawalRequest::Erc20(_) => (65_000, false) };
            let budget = x.budget;
            for tag in if again { ["C05", "C04"] } else { ["C04", "C04"] } {
                p.check(tag, t.gas == gas, "gas limit", show);
                p.check(tag, if exact { t.value + t.gas * t.max == budget } else { t.value == 0 && t.gas * t.max <= budget }, "what is sent and its highest fee are what was paid", || format!("{t:?} for {budget}"));
            }
            if let Some(o) = x.txs.last() {
                if o != t {
                    p.check("C05", t.max >= o.max && t.prio >= o.prio, "gas prices go down", || format!("{o:?} -> {t:?}"));
                    p.check("C05", t.prio * 10 >= o.prio * 11, "a replacement raises the priority fee by less than 10%", || format!("{o:?} -> {t:?}"));
                    let (to, ta) = ((&o.to, &o.data, o.gas), (&t.to, &t.data, t.gas));
                    p.check("C05", to == ta, "a replacement pays something else", || format!("{o:?} -> {t:?}"));
                }
            }
            if x.txs.last() != Some(t) { x.txs.push(t.clone()); }
        }
        // replacements of this round, from the state: below the confirmed count none, none that was not needed
        let sent0: Map<u64, Eip> = last(&before);
        let now1 = created(&after);
        let sent1 = last(&after);
        let made0 = created(&before);
        for (n, o) in &sent0 {
            let new = now1.get(n).filter(|x| made0.get(n) != Some(x)).or_else(|| sent1.get(n).filter(|x| *x != o && made0.get(n) != Some(x)));
            let (Some(new), Some((b, q))) = (new, est) else { continue };
            let show = || format!("nonce {n}: {o:?} -> {new:?} at base {b} prio {q}");
            p.check("C05", w.told.is_some_and(|k| *n >= k), "a transaction below the confirmed nonce is replaced", show);
            p.check("C05", o.0 < b + q || o.1 < q, "a transaction whose price covers the estimate is replaced", show);
            p.check("C05", new.0 >= b + q && new.1 >= q, "a replacement does not cover the estimate", show);
        }
        if let (Some(k), Some((b, q)), true) = (w.told, est, had) {
            let mut stop = false;
            for (n, o) in sent0.iter().filter(|(n, _)| **n >= k) {
                if o.0 >= b + q && o.1 >= q { continue; }
                let prio = (o.1 + (o.1 + 9) / 10).max(q);
                let max = (b + prio).max(o.0);
                let budget = o.3;
                if max * o.2 > budget { stop = true; }
                let new = now1.get(n).filter(|x| made0.get(n) != Some(x)).or_else(|| sent1.get(n).filter(|x| *x != o && made0.get(n) != Some(x)));
                if stop { p.check("C05", new.is_none(), "a transaction is replaced beyond its budget or after one that cannot be", || format!("nonce {n}: {new:?}")); }
                else { p.check("C05", new.is_some() || made0.contains_key(n) || !sent1.contains_key(n), "a transaction that is priced too low is not replaced", || format!("nonce {n}: {o:?} at base {b} prio {q}")); }
            }
        }
        // finalized
        let mut nfin = 0;
        for x in wds.iter_mut() {
            let id = x.req.native_ledger_burn_index();
            let st = after.withdrawal_transactions.transaction_status(&id);
            let Some(n) = x.nonce else { continue };
            let fin = after.withdrawal_transactions.get_finalized_transaction(&id).cloned();
            let show = || format!("withdrawal {id} nonce {n}: {st:?}");
            if let Some(f) = fin {
                let new = !x.over;
                x.over = true;
                nfin += new as u32;
                let m = w.mined.get(&n);
                p.check("C03", m.is_some_and(|m| Hash(m.hash) == *f.transaction_hash()), "a withdrawal ends with a transaction that was not mined", || format!("{} {:?}", show(), f.transaction_hash()));
                if new {
                    p.check("C03", w.told_final.is_some_and(|k| n < k), "a withdrawal ends before its transaction is final", show);
                    p.check("C12", !w.unsure, "withdrawals end although providers disagree on a receipt", show);
                }
                if let Some(m) = m {
                    p.check("C03", (f.transaction_status() == &crate::rpc_declrations::TransactionStatus::Success) == m.ok, "outcome of a withdrawal", || format!("{} {m:?}", show()));
                    let due: Vec<_> = after.withdrawal_transactions.reimbursement_requests_iter().filter(|(_, q)| q.ledger_burn_index == id || matches!(&x.req, WithdrawalRequest::Erc20(e) if e.erc20_ledger_burn_index == q.ledger_burn_index)).map(|(_, q)| q.clone()).collect();
                    p.check("C06", due.len() == !m.ok as usize, "a reimbursement is due exactly for a failed transaction", || format!("{} {due:?}", show()));
                    let t = x.txs.iter().find(|t| t.hash == m.hash);
                    if let (Some(q), Some(t)) = (due.first(), t) {
                        let want = match &x.req { WithdrawalRequest::Native(_) => crate::numeric::Erc20Value::from(t.value), WithdrawalRequest::Erc20(e) => e.withdrawal_amount };
                        let (from, sub) = match &x.req { WithdrawalRequest::Native(e) => (e.from, e.from_subaccount.clone()), WithdrawalRequest::Erc20(e) => (e.from, e.from_subaccount.clone()) };
                        p.check("C06", q.reimbursed_amount.to_be_bytes() == want.to_be_bytes() && q.to == from && q.to_subaccount == sub && q.transaction_hash == Some(Hash(t.hash)), "what is reimbursed", || format!("{q:?}, {t:?}"));
                    }
                }
            } else {
                p.check("C03", !x.over, "a withdrawal that had ended is open again", show);
            }
        }
        // the nonces in use are consecutive
        let all: Set<u64> = wds.iter().filter_map(|x| x.nonce).chain(now1.keys().copied()).chain(sent1.keys().copied()).collect();
        let next = after.withdrawal_transactions.next_transaction_nonce();
        p.check("C03", all.iter().copied().eq(0..all.len() as u64) && next == crate::numeric::TransactionNonce::from(all.len() as u64), "nonces are consecutive", || format!("{all:?} next {next:?}"));
        let open: Set<_> = wds.iter().filter(|x| !x.over).map(|x| x.req.native_ledger_burn_index()).collect();
        let known = after.withdrawal_transactions.withdrawal_requests_len() + now1.keys().chain(sent1.keys()).collect::<Set<_>>().len();
        p.check("C03", known == open.len(), "an open withdrawal is lost or doubled", || format!("{known} of {}", open.len()));
        if crate::vh::failed() || out.is_err() && !w.missing { return; }
    }
    // after calm rounds only what the fee cannot be paid for is left
    let (w, s) = (w.borrow(), STATE.with(|c| c.borrow().clone().unwrap()));
    let Some((b, q)) = s.last_transaction_price_estimate.as_ref().map(|x| (per(x.1.base_fee_per_gas), per(x.1.max_priority_fee_per_gas))) else { return };
    let _ = w;
    for x in &wds {
        let gas = if matches!(x.req, WithdrawalRequest::Native(_)) { 21_000 } else { 65_000 };
        p.check("C03", x.over || x.budget < gas * (2 * b + q), "a withdrawal does not come to its end", || format!("{:?} at base {b} prio {q}", x.req));
        p.check("C03", !x.over || x.nonce.is_some(), "a withdrawal ends without a transaction", || format!("{:?}", x.req));
    }
}

/// max fee, priority fee, gas limit, fee budget
type Eip = (u128, u128, u128, u128);
fn price(x: &Eip1559TransactionRequest, budget: Wei) -> Eip {
    (per(x.max_fee_per_gas), per(x.max_priority_fee_per_gas), low(x.gas_limit.change_units()), low(budget))
}
fn number(n: &TransactionNonce) -> u64 {
    low(n.change_units()) as u64
}
fn last(s: &State) -> Map<u64, Eip> {
    s.withdrawal_transactions.sent_tx.iter().filter_map(|(n, _, l)| l.last().map(|t| (number(n), price(t.as_ref().transaction(), t.resubmission.allowed_max_transaction_fee())))).collect()
}
fn created(s: &State) -> Map<u64, Eip> {
    s.withdrawal_transactions.created_tx.iter().map(|(n, _, t)| (number(n), price(t.as_ref(), t.resubmission.allowed_max_transaction_fee()))).collect()
}
