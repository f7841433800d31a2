//! A deterministic measure of work: a counting allocator, and a lookup
//! counter.  When a case exceeds its budget by orders of magnitude the
//! process ends with status 77, which the supervisor reports.

use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

pub struct Counting;

thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
    static LIMIT: Cell<u64> = const { Cell::new(u64::MAX) };
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BYTES: Cell<u64> = const { Cell::new(0) };
    static LOOKUPS: Cell<u64> = const { Cell::new(0) };
}

pub const EXIT_BUDGET: i32 = 77;
pub const EXIT_HANG: i32 = 78;
const MAX_LIVE: i64 = 2 << 30;

extern "C" {
    fn _exit(code: i32) -> !;
}

fn over() -> ! {
    unsafe { _exit(EXIT_BUDGET) }
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let _ = N.try_with(|n| {
            let x = n.get() + 1;
            n.set(x);
            let _ = LIMIT.try_with(|m| {
                if x > m.get() {
                    over()
                }
            });
        });
        let _ = BYTES.try_with(|n| n.set(n.get() + l.size() as u64));
        let _ = LIVE.try_with(|n| {
            let x = n.get() + l.size() as i64;
            n.set(x);
            if x > MAX_LIVE {
                over()
            }
        });
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let _ = LIVE.try_with(|n| n.set(n.get() - l.size() as i64));
        System.dealloc(p, l)
    }
}

pub fn allocs() -> u64 {
    N.with(|n| n.get())
}

/// Arm the limit for one case.
pub fn arm(max: u64) {
    LIMIT.with(|m| m.set(allocs().saturating_add(max)));
    LIVE.with(|m| m.set(0));
    LOOKUPS.with(|m| m.set(0));
}

pub fn disarm() {
    LIMIT.with(|m| m.set(u64::MAX));
}

/// Count allocations made by `f`.
pub fn count<T>(f: impl FnOnce() -> T) -> (T, u64) {
    let a = allocs();
    let r = f();
    (r, allocs() - a)
}

/// What a call cost.
#[derive(Clone, Copy, Debug, Default)]
pub struct Cost {
    pub allocs: u64,
    pub bytes: u64,
    /// processor time of this thread
    pub ns: u64,
}

fn cpu_ns() -> u64 {
    #[repr(C)]
    struct Ts {
        s: i64,
        n: i64,
    }
    extern "C" {
        fn clock_gettime(c: i32, t: *mut Ts) -> i32;
    }
    let mut t = Ts { s: 0, n: 0 };
    // CLOCK_THREAD_CPUTIME_ID
    unsafe { clock_gettime(3, &mut t) };
    t.s as u64 * 1_000_000_000 + t.n as u64
}

pub fn cost<T>(f: impl FnOnce() -> T) -> (T, Cost) {
    let (a, b, n) = (allocs(), BYTES.with(|x| x.get()), cpu_ns());
    let r = f();
    (r, Cost { allocs: allocs() - a, bytes: BYTES.with(|x| x.get()) - b, ns: cpu_ns() - n })
}

/// A `LookupContext` that counts, and gives up after `max` lookups.
pub struct Fuel<'c> {
    pub inner: &'c dyn cddl_cat::context::LookupContext,
    pub max: u64,
    pub used: Cell<u64>,
}

impl<'c> Fuel<'c> {
    pub fn new(inner: &'c dyn cddl_cat::context::LookupContext, max: u64) -> Self {
        Fuel { inner, max, used: Cell::new(0) }
    }
}

impl cddl_cat::context::LookupContext for Fuel<'_> {
    fn lookup_rule<'a>(&'a self, name: &str) -> Result<&'a cddl_cat::ivt::RuleDef, cddl_cat::ValidateError> {
        let n = self.used.get() + 1;
        self.used.set(n);
        if n > self.max {
            over()
        }
        self.inner.lookup_rule(name)
    }
}
