//@ in src/deposit_logs/mod.rs as crate::deposit_logs
// the filter of the deposit log query, for random sets of registered tokens
use super::*;
use crate::rpc_declrations::Topic;
use crate::vh::{catch, Run};
use crate::vhb;
use std::collections::BTreeSet;

fn words(t: &Topic) -> Vec<[u8; 32]> {
    match t {
        Topic::Single(x) => vec![x.0],
        Topic::Multiple(l) => l.iter().map(|x| x.0).collect(),
    }
}

pub fn run(r: &mut Run) {
    r.repeat(20, 2000, |r| {
        let n = r.rng.below(5);
        let mut s = vhb::state();
        s.helper_contract_address = Some(vhb::addr(77));
        let mut want: BTreeSet<[u8; 32]> = [[0u8; 32]].into();
        for i in 0..n {
            let t = vhb::token(100 + i);
            let mut w = [0u8; 32];
            w[12..].copy_from_slice(t.erc20_contract_address.as_ref());
            want.insert(w);
            s.record_add_erc20_token(t);
        }
        r.case(n);
        let show = format!("{n} registered tokens");
        match catch(|| ReceivedDepositLogScraping::next_scrape(&s)) {
            Ok(Some(q)) => {
                r.eq(q.contract_address, vhb::addr(77), "the helper contract is queried", || show.clone());
                r.eq(q.topics.len(), 2, "two topics", || show.clone());
                r.eq(q.topics.first().map(words), Some(vec![RECEIVED_DEPOSITED_TOKEN_EVENT_TOPIC]), "deposit events", || show.clone());
                r.eq(q.topics.get(1).map(|t| words(t).into_iter().collect::<BTreeSet<_>>()), Some(want), "tokens selected", || show.clone());
            }
            Ok(None) => crate::vh::fail(r.section, "no query", &show),
            Err(m) => crate::vh::fail(r.section, "query traps", &format!("{m}: {show}")),
        }
    });
}
