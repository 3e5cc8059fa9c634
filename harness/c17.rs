//@ in src/rpc_client/mod.rs as crate::rpc_client
// sequences of provider answers against the retry loop of the RPC canister client
use super::*;
use crate::vh::{block_on, catch, Run};
use crate::vhb;
use candid::encode_one;
use evm_rpc_types::{ProviderError, RpcError};
use std::cell::RefCell;
use std::rc::Rc;

type T = EvmMultiRpcResult<Nat256>;

fn needs(t: &T) -> Option<u128> {
    let one = |x: &Result<Nat256, RpcError>| match x {
        Err(RpcError::ProviderError(ProviderError::TooFewCycles { expected, .. })) => Some(*expected),
        _ => None,
    };
    match t {
        EvmMultiRpcResult::Consistent(x) => one(x),
        EvmMultiRpcResult::Inconsistent(l) => l.iter().filter_map(|(_, x)| one(x)).max(),
    }
}

pub fn run(r: &mut Run) {
    r.repeat(60, 3000, |r| {
        let g = &mut r.rng;
        let min: u128 = *g.pick(&[0, 1, 30_000_000_000, u128::MAX, u128::MAX / 2, (u128::MAX / 2) + 1, 1000]);
        let limit = g.below(5) as u32;
        let stubborn = g.bool();
        let few = |g: &mut crate::vh::Rng, now: u128| {
            let e = match g.below(4) { 0 => now.saturating_mul(2).saturating_add(g.below(5) as u128), 1 => g.u128(), 2 => now / 2, _ => now.saturating_add(g.below(100) as u128) };
            Err(RpcError::ProviderError(ProviderError::TooFewCycles { expected: e, received: now }))
        };
        let answer = move |g: &mut crate::vh::Rng, now: u128| -> Result<T, (i32, String)> {
            if g.chance(12) {
                return Err((1 + g.below(5) as i32, "rejected".into()));
            }
            let k = if stubborn { g.below(2) } else { g.below(4) };
            Ok(match k {
                0 => EvmMultiRpcResult::Consistent(few(g, now)),
                1 => EvmMultiRpcResult::Inconsistent((0..1 + g.below(4)).map(|i| (EvmRpcService::Provider(i), match g.below(3) {
                    0 => Ok(Nat256::from(g.below(3))),
                    1 => Err(RpcError::ProviderError(ProviderError::NoPermission)),
                    _ => few(g, now),
                })).collect()),
                2 => EvmMultiRpcResult::Consistent(Ok(Nat256::from(g.below(9)))),
                _ => EvmMultiRpcResult::Consistent(Err(RpcError::ProviderError(ProviderError::ProviderNotFound))),
            })
        };
        let seen: Rc<RefCell<Vec<(u128, Result<T, (i32, String)>, Vec<u8>, String)>>> = Rc::new(RefCell::new(vec![]));
        let s2 = seen.clone();
        let mut g2 = crate::vh::Rng::new(g.u64());
        ic0::host::on_call(Box::new(move |c| {
            let a = answer(&mut g2, c.cycles);
            s2.borrow_mut().push((c.cycles, a.clone(), c.args.clone(), c.method.clone()));
            if s2.borrow().len() > 50 {
                panic!("never gives up");
            }
            a.map(|t| encode_one(&t).unwrap())
        }));
        let client = EvmRpcClient::builder(CallerService {}, TRACE_HTTP).with_min_attached_cycles(min).with_max_num_retries(limit).build();
        let out = catch(|| block_on(client.eth_get_transaction_count(EvmGetTransactionCountArgs { address: Hex20::from(vhb::addr(1).into_bytes()), block: EvmBlockTag::Latest })));
        let seen = seen.borrow().clone();
        let show = format!("{min} cycles, {limit} retries allowed, attempts {:?}", seen.iter().map(|(c, a, _, _)| (c, a)).collect::<Vec<_>>());
        r.case(&show);
        let out = match out {
            Ok(x) => x,
            Err(m) => return crate::vh::fail(r.section, "the call traps", &format!("{m}: {show}")),
        };
        r.check(seen.first().map(|x| x.0) == Some(min), "the first attempt attaches the configured cycles", || show.clone());
        r.check(seen.len() <= limit as usize + 1, "attempts within the limit", || show.clone());
        for w in seen.windows(2) {
            let need = w[0].1.as_ref().ok().and_then(needs);
            r.check(need.is_some(), "repeated only for too few cycles", || show.clone());
            r.check(w[1].0 >= w[0].0.saturating_mul(2) && w[1].0 >= need.unwrap_or(0), "enough more cycles", || show.clone());
            r.check(w[1].2 == w[0].2 && w[1].3 == w[0].3, "the same request", || show.clone());
        }
        let last = &seen.last().unwrap().1;
        let want = match last {
            Ok(t) => t.clone(),
            Err((c, m)) => EvmMultiRpcResult::Consistent(Err(RpcError::HttpOutcallError(HttpOutcallError::IcError { code: RejectionCode::from(*c), message: m.clone() }))),
        };
        if needs(&want).is_some() {
            r.check(seen.len() == limit as usize + 1, "gives up only at the limit", || show.clone());
        }
        r.eq(out, want, "the last answer is returned", || show.clone());
    });
}
