//@ in src/deposit_logs/mod.rs as crate::deposit_logs
// log decoding against an independent decoder, on mutated deposit logs
use super::*;
use crate::rpc_declrations::{Data, LogEntry, Quantity};
use crate::vh::{catch, Rng, Run};
use crate::vhb;

const TOPIC: &str = "deaddf8708b62ae1bf8ec4693b523254aa961b2da6bc5be57f3188ee784d6275";

fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

fn word(g: &mut Rng, kind: u64) -> [u8; 32] {
    let mut w = g.bytes32();
    match kind {
        0 => w[..12].fill(0),
        1 => {
            let n = match g.below(8) { 0 => 0, 1 => 1, 2 => 29, 3 => 30, 4 => 10, 5 => g.below(256), _ => 1 + g.below(29) } as usize;
            w = [0; 32];
            w[0] = n as u8;
            for i in 1..=n.min(31) { w[i] = g.u64() as u8 }
            if g.chance(6) && n >= 1 { w[1] = 4 }
        }
        _ => {}
    }
    if g.chance(8) {
        let i = g.below(32) as usize;
        w[i] ^= 1 << g.below(8);
    }
    w
}

fn entry(g: &mut Rng) -> LogEntry {
    let mut topics = vec![FixedSizeData(unhex(TOPIC).try_into().unwrap()), FixedSizeData(word(g, 0)), FixedSizeData(word(g, 2)), FixedSizeData(word(g, 1))];
    if g.chance(4) { topics[1] = FixedSizeData([0; 32]) }
    if g.chance(30) { topics.pop(); }
    if g.chance(30) { topics.push(FixedSizeData([0; 32])) }
    if g.chance(30) { let i = g.below(32) as usize; topics[0].0[i] ^= 1 << g.below(8) }
    let mut data = word(g, 0).to_vec();
    data.extend(if g.bool() { [0; 32] } else { word(g, 2) });
    if g.chance(30) { data.pop(); }
    if g.chance(30) { data.push(0) }
    if g.chance(40) { data.extend([0; 32]) }
    if g.chance(60) { data.truncate(32) }
    macro_rules! o { ($x:expr) => { if g.chance(40) { None } else { Some($x) } } }
    let n = g.below(1000);
    LogEntry {
        address: vhb::addr(g.below(5)),
        topics,
        data: Data(data),
        block_number: o!(BlockNumber::from(g.u64())),
        transaction_hash: o!(vhb::hash(n)),
        transaction_index: o!(Quantity::from(g.below(9) as u8)),
        block_hash: o!(vhb::hash(n + 7)),
        log_index: o!(LogIndex::from(g.u64())),
        removed: g.chance(40),
    }
}

type D = (Hash, BlockNumber, LogIndex, Vec<u8>, [u8; 32], Vec<u8>, Vec<u8>, Option<Vec<u8>>);

fn expected(e: &LogEntry) -> Option<D> {
    e.block_hash?;
    e.transaction_index?;
    let (b, h, l) = (e.block_number?, e.transaction_hash?, e.log_index?);
    let d = &e.data.0;
    if e.removed || e.topics.len() != 4 || e.topics[0].0.to_vec() != unhex(TOPIC) || d.len() != 64 { return None }
    if d[..12].iter().chain(&e.topics[1].0[..12]).any(|x| *x != 0) { return None }
    let p = &e.topics[3].0;
    let k = p[0] as usize;
    if k == 0 || k > 29 || p[1 + k..].iter().any(|x| *x != 0) || (k == 1 && p[1] == 4) { return None }
    let sub = if d[32..].iter().all(|x| *x == 0) { None } else { Some(d[32..].to_vec()) };
    Some((h, b, l, d[12..32].to_vec(), e.topics[2].0, p[1..1 + k].to_vec(), e.topics[1].0[12..].to_vec(), sub))
}

fn got(ev: &ReceivedDepositEvent) -> D {
    match ev {
        ReceivedDepositEvent::Native(v) => (v.transaction_hash, v.block_number, v.log_index, v.from_address.as_ref().to_vec(), v.value.to_be_bytes(), v.principal.as_slice().to_vec(), vec![0; 20],
            v.subaccount.clone().map(|s| s.to_bytes().to_vec())),
        ReceivedDepositEvent::Erc20(v) => {
            let mut t = v.erc20_contract_address.as_ref().to_vec();
            if t.iter().all(|x| *x == 0) { t = vec![1; 3] }
            (v.transaction_hash, v.block_number, v.log_index, v.from_address.as_ref().to_vec(), v.value.to_be_bytes(), v.principal.as_slice().to_vec(), t,
            v.subaccount.clone().map(|s| s.to_bytes().to_vec()))
        }
    }
}

pub fn run(r: &mut Run) {
    r.repeat(200, 40000, |r| {
        let n = r.rng.below(6) as usize;
        let logs: Vec<LogEntry> = (0..n).map(|_| entry(&mut r.rng)).collect();
        r.case(format!("{logs:?}"));
        let show = format!("logs={logs:?}");
        let exp: Vec<D> = logs.iter().filter_map(expected).collect();
        let l2 = logs.clone();
        match catch(move || ReceivedDepositLogParser::parse_all_logs(l2)) {
            Ok((evs, errs)) => {
                r.eq(evs.iter().map(got).collect::<Vec<_>>(), exp.clone(), "decoded deposits", || show.clone());
                r.eq(evs.len() + errs.len(), n, "one result per log", || show.clone());
            }
            Err(m) => crate::vh::fail(r.section, "decoding a batch traps", &format!("{m}: {show}")),
        }
        for l in &logs {
            let l2 = l.clone();
            match catch(move || ReceivedDepositLogParser::parse_log(l2)) {
                Ok(x) => r.eq(x.ok().as_ref().map(got), expected(l), "one log", || format!("log={l:?}")),
                Err(m) => crate::vh::fail(r.section, "decoding traps", &format!("{m}: log={l:?}")),
            }
        }
    });
}
