//@ in src/lib.rs as crate
// random operations on two-key maps against a list of entries
use crate::map::{DedupMultiKeyMap, MultiKeyMap, OccupiedKey};
use crate::vh::{catch, Run};
use std::collections::{BTreeMap, BTreeSet};

type Model = BTreeMap<u8, (i16, u32)>;
type M = MultiKeyMap<u8, i16, u32>;

fn wrong(m: &M, model: &Model) -> Option<String> {
    let got: Vec<_> = m.iter().map(|(k, a, v)| (*k, (*a, *v))).collect();
    let want: Vec<_> = model.iter().map(|(k, e)| (*k, *e)).collect();
    if got != want { return Some(format!("entries {got:?}, expected {want:?}")); }
    if m.is_empty() != model.is_empty() { return Some("is_empty".into()); }
    if m.keys().copied().collect::<Vec<_>>() != model.keys().copied().collect::<Vec<_>>() { return Some("keys".into()); }
    if m.alt_keys().copied().collect::<BTreeSet<_>>() != model.values().map(|e| e.0).collect() || m.alt_keys().count() != model.len() { return Some("alternative keys".into()); }
    for k in 0..12u8 {
        let e = model.get(&k);
        if m.get(&k) != e.map(|e| &e.1) || m.get_entry(&k) != e.map(|e| (&e.0, &e.1)) || m.contains(&k) != e.is_some() { return Some(format!("lookup of {k}")); }
    }
    for a in -6..6i16 {
        let e = model.values().find(|e| e.0 == a);
        if m.get_alt(&a) != e.map(|e| &e.1) || m.contains_alt(&a) != e.is_some() { return Some(format!("lookup of alternative {a}")); }
    }
    None
}

fn wrong2(m: &DedupMultiKeyMap<u8, i16, u32>, model: &Model) -> Option<String> {
    let got: Vec<_> = m.iter().map(|(k, a, v)| (*k, (*a, *v))).collect();
    let want: Vec<_> = model.iter().map(|(k, e)| (*k, *e)).collect();
    if got != want { return Some(format!("entries {got:?}, expected {want:?}")); }
    if m.alt_keys().copied().collect::<BTreeSet<_>>() != model.values().map(|e| e.0).collect() { return Some("alternative keys".into()); }
    for k in 0..12u8 {
        let e = model.get(&k);
        if m.get(&k) != e.map(|e| &e.1) || m.get_entry(&k) != e.map(|e| (&e.0, &e.1)) { return Some(format!("lookup of {k}")); }
    }
    for a in -6..6i16 {
        let e = model.iter().find(|(_, e)| e.0 == a);
        if m.get_alt(&a) != e.map(|(_, e)| &e.1) || m.get_entry_alt(&a) != e.map(|(k, e)| (k, &e.1)) || m.contains_alt(&a) != e.is_some() { return Some(format!("lookup of alternative {a}")); }
    }
    None
}

fn insert_wrong(model: &Model, k: u8, a: i16, v: u32, got: Result<(), (OccupiedKey<u8, i16>, u32)>) -> Option<&'static str> {
    let (kin, ain) = (model.contains_key(&k), model.values().any(|e| e.0 == a));
    match got {
        Ok(()) => if kin || ain { Some("an occupied key is refused") } else { None },
        Err((o, w)) => {
            if w != v { return Some("the refused value is handed back"); }
            match o {
                OccupiedKey::Key(x) => if !kin || x != k { Some("the offending key is named") } else { None },
                OccupiedKey::AltKey(x) => if !ain || x != a { Some("the offending alternative key is named") } else { None },
            }
        }
    }
}

pub fn run(r: &mut Run) {
    r.repeat(2000, 300_000, |r| {
        let (mut m, mut d): (M, DedupMultiKeyMap<u8, i16, u32>) = (Default::default(), Default::default());
        let (mut model, mut dmodel) = (Model::new(), Model::new());
        let mut log = vec![];
        if r.rng.bool() {
            let n = r.rng.below(8);
            for _ in 0..n {
                let (k, a, v) = (r.rng.below(12) as u8, r.rng.below(12) as i16 - 6, r.rng.u64() as u32 % 100);
                if !model.contains_key(&k) && !model.values().any(|e| e.0 == a) {
                    model.insert(k, (a, v));
                }
            }
            let mut entries: Vec<(u8, i16, u32)> = model.iter().map(|(k, e)| (*k, e.0, e.1)).collect();
            for i in (1..entries.len()).rev() {
                let j = r.rng.below(i as u64 + 1) as usize;
                entries.swap(i, j);
            }
            log.push(format!("from {entries:?}"));
            m = entries.into_iter().collect();
        } else {
            m = if r.rng.bool() { m } else { MultiKeyMap::new() };
        }
        let steps = 1 + r.rng.below(14);
        for _ in 0..steps {
            let (k, a, v) = (r.rng.below(12) as u8, r.rng.below(12) as i16 - 6, r.rng.u64() as u32 % 100);
            let mut bad: Option<String> = None;
            match r.rng.below(9) {
                0..=3 => {
                    log.push(format!("insert {k} {a} {v}"));
                    match catch(|| m.try_insert(k, a, v)) {
                        Err(e) => bad = Some(e),
                        Ok(x) => {
                            bad = insert_wrong(&model, k, a, v, x.clone().map_err(|e| (e.occupied_key, e.value))).map(String::from);
                            if x.is_ok() { model.insert(k, (a, v)); }
                        }
                    }
                }
                4 => {
                    log.push(format!("insert into the second map {k} {a} {v}"));
                    match catch(|| d.try_insert(k, a, v)) {
                        Err(e) => bad = Some(e),
                        Ok(x) => {
                            bad = insert_wrong(&dmodel, k, a, v, x.clone().map_err(|e| (e.occupied_key, e.value))).map(String::from);
                            if x.is_ok() { dmodel.insert(k, (a, v)); }
                        }
                    }
                }
                5 => {
                    log.push(format!("remove {k}"));
                    match catch(|| m.remove_entry(&k)) {
                        Err(e) => bad = Some(e),
                        Ok(x) => {
                            let want = model.remove(&k).map(|e| (k, e.0, e.1));
                            if x != want { bad = Some(format!("removed {x:?}, expected {want:?}")); }
                        }
                    }
                }
                6 => {
                    log.push(format!("change {k} to {v}"));
                    if let Some(x) = m.get_mut(&k) { *x = v; }
                    if let Some(x) = model.get_mut(&k) { x.1 = v; }
                }
                7 => {
                    let (lo, odd) = (r.rng.below(12) as u8, r.rng.bool());
                    let p = |x: &u8| *x >= lo && (!odd || x % 2 == 1);
                    log.push(format!("drain >= {lo} odd {odd}"));
                    match catch(|| m.drain(p)) {
                        Err(e) => bad = Some(e),
                        Ok(mut x) => {
                            x.sort();
                            let want: Vec<_> = model.iter().filter(|(k, _)| p(k)).map(|(k, e)| (*k, e.0, e.1)).collect();
                            model.retain(|k, _| !p(k));
                            if x != want { bad = Some(format!("drained {x:?}, expected {want:?}")); }
                        }
                    }
                }
                _ => log.push("look".into()),
            }
            let bad = bad.or_else(|| match catch(|| wrong(&m, &model).or_else(|| wrong2(&d, &dmodel))) { Ok(x) => x, Err(e) => Some(e) });
            r.check(bad.is_none(), "two-key map", || format!("{}: after {log:?}", bad.clone().unwrap_or_default()));
            if bad.is_some() { return; }
        }
        r.case(&log);
    });
}
