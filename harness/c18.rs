//@ in src/logs.rs as crate::logs
// log pages against the size limit; ordering keeps the entries
use super::*;
use crate::vh::Run;

fn key(e: &LogEntry) -> String {
    serde_json::to_string(e).unwrap()
}

pub fn run(r: &mut Run) {
    r.repeat(150, 4000, |r| {
        let g = &mut r.rng;
        let n = match g.below(4) { 0 => g.below(3), 1 => g.below(8), _ => g.below(40) };
        let span = *g.pick(&[1u64, 3, 50, u64::MAX]);
        let entries: Vec<LogEntry> = (0..n).map(|i| LogEntry {
            timestamp: if g.chance(9) { u64::MAX } else { g.below(span) },
            priority: *g.pick(&[Priority::Info, Priority::TraceHttp, Priority::Debug]),
            file: "f".repeat(g.below(9) as usize),
            line: g.below(1 << 32) as u32,
            message: match g.below(4) { 0 => String::new(), 1 => "\"\\\n\u{1}é".repeat(g.below(20) as usize), 2 => "m".repeat(g.below(300) as usize), _ => format!("entry {i}") },
            counter: g.below(1 << 40),
        }).collect();
        let log = Log { entries: entries.clone() };
        let text = |k: usize| serde_json::to_string(&Log { entries: entries[..k].to_vec() }).unwrap();
        let full = text(entries.len());
        let k = g.below(n + 1) as usize;
        let lim = match g.below(5) {
            0 => text(k).len(),
            1 => (text(k).len() + 1).max(14),
            2 => (text(k).len() - 1).max(14),
            3 => full.len() + g.below(3) as usize,
            _ => 14 + g.below(full.len() as u64 + 4) as usize,
        };
        let show = || format!("limit {lim}, log {full}");
        r.case((n, lim, full.len()));
        let page = log.serialize_logs(lim);
        r.check(page.len() <= lim, "the page fits the limit", || format!("{} -> {} bytes", show(), page.len()));
        let best = (0..=entries.len()).rev().find(|k| text(*k).len() <= lim).unwrap();
        r.eq(page, text(best), "the page is the longest prefix that fits", show);
        let (want, desc) = match r.rng.below(4) { 0 => (Sort::Ascending, false), 1 => (Sort::Descending, true), 2 => (Sort::from_str("asc").unwrap(), false), _ => (Sort::from_str("DESC").unwrap(), true) };
        let mut s = Log { entries: entries.clone() };
        s.sort_logs(want);
        let mut a: Vec<String> = entries.iter().map(key).collect();
        let mut b: Vec<String> = s.entries.iter().map(key).collect();
        r.check(s.entries.windows(2).all(|w| if desc { w[0].timestamp >= w[1].timestamp } else { w[0].timestamp <= w[1].timestamp }), "the entries are in the order asked for", || format!("descending {desc}, {full}"));
        a.sort();
        b.sort();
        r.eq(b, a, "sorting keeps exactly the same entries", || format!("descending {desc}, {full}"));
    });
}
