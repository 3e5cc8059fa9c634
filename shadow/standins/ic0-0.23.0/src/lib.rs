//! Stand-in for ic0 outside a canister: system calls answered by thread-local values the harness sets.
mod ic0;
pub use crate::ic0::*;
pub mod host {
    use std::cell::{Cell, RefCell};
    thread_local! {
        pub static TIME: Cell<i64> = Cell::new(1_700_000_000_000_000_000);
        pub static COUNTER: Cell<i64> = Cell::new(0);
        pub static CALLER: RefCell<Vec<u8>> = RefCell::new(vec![4]);
        pub static SELF: RefCell<Vec<u8>> = RefCell::new(vec![0, 0, 0, 0, 0, 0, 0, 9, 1, 1]);
        pub static TIMERS: Cell<u64> = Cell::new(0);
    }
    pub fn time() -> i64 {
        TIME.with(|t| { t.set(t.get() + 1); t.get() })
    }
    pub fn counter() -> i64 {
        COUNTER.with(|t| { t.set(t.get() + 1000); t.get() })
    }
    pub fn caller() -> Vec<u8> {
        CALLER.with(|c| c.borrow().clone())
    }
    pub fn this() -> Vec<u8> {
        SELF.with(|c| c.borrow().clone())
    }
    pub fn timer(_: i64) -> i64 {
        TIMERS.with(|t| t.set(t.get() + 1));
        0
    }
    /// `dst` lost its upper half on the way; the buffer was just allocated by this thread, as the probe is.
    pub fn copy(src: &[u8], dst: i32, offset: i32, size: i32) {
        let probe = vec![0u8; src.len().max(1)];
        let at = (probe.as_ptr() as usize & !0xffff_ffff) | (dst as u32 as usize);
        let part = &src[offset as usize..(offset + size) as usize];
        unsafe { std::ptr::copy_nonoverlapping(part.as_ptr(), at as *mut u8, part.len()) }
    }
    /// the same for a variable on the stack: the address with these low bits that is nearest
    #[inline(never)]
    pub fn to_stack(src: &[u8], dst: i32) {
        let probe = 0u8;
        let here = std::hint::black_box(&probe) as *const u8 as usize as i64;
        let low = dst as u32 as i64;
        let base = (here & !0xffff_ffff) | low;
        let at = [base - (1 << 32), base, base + (1 << 32)].into_iter().min_by_key(|a| (a - here).abs()).unwrap();
        unsafe { std::ptr::copy_nonoverlapping(src.as_ptr(), at as usize as *mut u8, src.len()) }
    }

    // ---- calls to other canisters. The executable is linked at a fixed low address, so code and heap pointers fit 32 bits.
    #[derive(Clone, Default)]
    pub struct Call {
        pub callee: Vec<u8>,
        pub method: String,
        pub args: Vec<u8>,
        pub cycles: u128,
        fun: usize,
        env: usize,
    }
    pub type Handler = Box<dyn FnMut(&Call) -> Result<Vec<u8>, (i32, String)>>;
    thread_local! {
        static NEW: RefCell<Call> = RefCell::new(Call::default());
        static QUEUE: RefCell<std::collections::VecDeque<Call>> = RefCell::new(Default::default());
        static REPLY: RefCell<(i32, Vec<u8>)> = RefCell::new((0, vec![]));
        static HANDLER: RefCell<Option<Handler>> = RefCell::new(None);
    }
    fn bytes(src: i32, size: i32) -> Vec<u8> {
        if size == 0 { return vec![]; }
        unsafe { std::slice::from_raw_parts(src as u32 as usize as *const u8, size as usize).to_vec() }
    }
    pub fn reply() -> (i32, Vec<u8>) {
        REPLY.with(|r| r.borrow().clone())
    }
    pub fn call_new(cs: i32, cn: i32, ms: i32, mn: i32, fun: i32, env: i32) {
        let c = Call { callee: bytes(cs, cn), method: String::from_utf8_lossy(&bytes(ms, mn)).into_owned(), args: vec![], cycles: 0, fun: fun as u32 as usize, env: env as u32 as usize };
        NEW.with(|n| *n.borrow_mut() = c)
    }
    pub fn call_data(src: i32, size: i32) {
        NEW.with(|n| n.borrow_mut().args.extend(bytes(src, size)))
    }
    pub fn call_cycles(n: u128) {
        NEW.with(|c| c.borrow_mut().cycles += n)
    }
    pub fn call_perform() -> i32 {
        let c = NEW.with(|n| std::mem::take(&mut *n.borrow_mut()));
        QUEUE.with(|q| q.borrow_mut().push_back(c));
        0
    }
    /// what answers the calls
    pub fn on_call(h: Handler) {
        QUEUE.with(|q| q.borrow_mut().clear());
        HANDLER.with(|x| *x.borrow_mut() = Some(h))
    }
    /// answer one waiting call; false if none waits
    pub fn deliver() -> bool {
        let Some(c) = QUEUE.with(|q| q.borrow_mut().pop_front()) else { return false };
        let h = HANDLER.with(|x| x.borrow_mut().take());
        let r = match h {
            Some(mut h) => {
                let r = h(&c);
                HANDLER.with(|x| { let mut x = x.borrow_mut(); if x.is_none() { *x = Some(h) } });
                r
            }
            None => Err((3, "no handler".to_string())),
        };
        let r = match r {
            Ok(b) => (0, b),
            Err((code, m)) => (code, m.into_bytes()),
        };
        REPLY.with(|x| *x.borrow_mut() = r);
        if c.fun as u32 != u32::MAX {
            let f: unsafe extern "C" fn(*const u8) = unsafe { std::mem::transmute(c.fun) };
            unsafe { f(c.env as *const u8) };
        }
        true
    }
    pub fn setup() {
        extern "C" {
            fn mallopt(param: i32, value: i32) -> i32;
        }
        unsafe { mallopt(-3, 1 << 30) };   // M_MMAP_THRESHOLD: everything on the (low) heap
    }
}
