// runtime of the executable oracles: seeded generator, time budget, failure report
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::{Duration, Instant};

pub struct Rng(u64);
impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(seed.wrapping_mul(0x9E3779B97F4A7C15) ^ 0xD1B54A32D192ED03)
    }
    pub fn u64(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 { 0 } else { self.u64() % n }
    }
    pub fn bool(&mut self) -> bool {
        self.u64() & 1 == 1
    }
    pub fn chance(&mut self, n: u64) -> bool {
        self.below(n) == 0
    }
    pub fn u128(&mut self) -> u128 {
        ((self.u64() as u128) << 64) | self.u64() as u128
    }
    pub fn pick<'a, T>(&mut self, xs: &'a [T]) -> &'a T {
        &xs[self.below(xs.len() as u64) as usize]
    }
    pub fn bytes32(&mut self) -> [u8; 32] {
        let mut b = [0u8; 32];
        for i in 0..4 {
            b[i * 8..i * 8 + 8].copy_from_slice(&self.u64().to_be_bytes());
        }
        match self.below(6) {
            0 => [0u8; 32],
            1 => [0xff; 32],
            2 => { let mut c = [0u8; 32]; c[31] = b[0]; c }
            3 => { let n = self.below(32) as usize; for x in b.iter_mut().take(n) { *x = 0; } b }
            4 => { let mut c = [0xff; 32]; c[31] = b[0]; c }
            _ => b,
        }
    }
    pub fn bytes(&mut self, n: usize) -> Vec<u8> {
        (0..n).map(|_| self.u64() as u8).collect()
    }
}

pub struct Run {
    pub rng: Rng,
    pub section: &'static str,
    pub cases: u64,
    pub distinct: BTreeSet<u64>,
    until: Instant,
}

thread_local! {
    static FAILS: RefCell<BTreeMap<String, u64>> = RefCell::new(BTreeMap::new());
    static PANIC: RefCell<String> = RefCell::new(String::new());
}

fn seconds() -> f64 {
    std::env::var("VH_SECONDS").ok().and_then(|s| s.parse().ok()).unwrap_or(5.0)
}

impl Run {
    /// for a part run in a thread of its own
    pub fn child(&mut self) -> Run {
        Run { rng: Rng::new(self.rng.u64()), section: self.section, cases: 0, distinct: BTreeSet::new(), until: self.until }
    }
    pub fn thorough(&self) -> bool {
        std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false)
    }
    /// repeat `f` until the section's time is over (at least `min` times)
    pub fn repeat(&mut self, min: u64, max: u64, mut f: impl FnMut(&mut Run)) {
        let mut i = 0;
        while i < max && (i < min || Instant::now() < self.until) {
            f(self);
            i += 1;
        }
    }
    pub fn case(&mut self, fingerprint: impl std::hash::Hash) {
        use std::hash::Hasher;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        fingerprint.hash(&mut h);
        self.cases += 1;
        if self.distinct.len() < 200000 {
            self.distinct.insert(h.finish());
        }
    }
    pub fn check(&mut self, ok: bool, name: &str, input: impl FnOnce() -> String) {
        if !ok {
            fail(self.section, name, &input());
        }
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, a: T, b: T, name: &str, input: impl FnOnce() -> String) {
        if a != b {
            let i = input();
            fail(self.section, name, &format!("{i}: got {a:?}, expected {b:?}"));
        }
    }
}

pub fn fail(section: &str, name: &str, input: &str) {
    FAILS.with(|f| {
        let mut f = f.borrow_mut();
        let n = f.entry(format!("{section}/{name}")).or_insert(0);
        *n += 1;
        if *n <= 2 {
            let mut s = input.replace('\n', " ");
            s.truncate(s.char_indices().nth(1500).map(|x| x.0).unwrap_or(s.len()));
            println!("FAIL {section}/{name} :: {s}");
        }
    });
}

/// has a check of this thread failed
pub fn failed() -> bool {
    FAILS.with(|f| !f.borrow().is_empty())
}

/// Ok(result), or Err(panic message)
pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    PANIC.with(|p| p.borrow_mut().clear());
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| PANIC.with(|p| p.borrow().clone()))
}

pub fn section(name: &'static str, f: fn(&mut Run)) {
    std::panic::set_hook(Box::new(|i| {
        let m = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = format!("{m} at {l}"));
    }));
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let mut r = Run { rng: Rng::new(seed), section: name, cases: 0, distinct: BTreeSet::new(), until: Instant::now() + Duration::from_secs_f64(seconds()) };
    if let Err(e) = catch(|| f(&mut r)) {
        println!("BROKEN {name} {}", e.replace('\n', " "));
    }
    println!("CASES {name} {} {}", r.cases, r.distinct.len());
}

pub fn finish() {}

/// drive a future that never really waits
pub fn block_on<F: std::future::Future>(f: F) -> F::Output {
    use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
    fn vt() -> &'static RawWakerVTable {
        static V: RawWakerVTable = RawWakerVTable::new(|_| RawWaker::new(std::ptr::null(), vt()), |_| {}, |_| {}, |_| {});
        &V
    }
    let w = unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), vt())) };
    let mut cx = Context::from_waker(&w);
    let mut f = Box::pin(f);
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            return x;
        }
        if !ic0::host::deliver() {
            panic!("waits for nothing");
        }
    }
}

/// a number with its interesting magnitudes: small, around powers of two, near the top
pub fn number(r: &mut Rng) -> ethnum::u256 {
    let one = ethnum::u256::from(1u8);
    match r.below(8) {
        0 => ethnum::u256::from(r.below(4)),
        1 => ethnum::u256::from(r.below(1000)),
        2 | 3 => ethnum::u256::from(r.u64() >> r.below(63)),
        4 => ethnum::u256::from(r.u128() >> r.below(127)),
        5 => (one << (r.below(256) as u32)) - ethnum::u256::from(r.below(2)),
        6 => ethnum::u256::MAX - ethnum::u256::from(r.below(3)),
        _ => ethnum::u256::from_be_bytes(r.bytes32()),
    }
}
