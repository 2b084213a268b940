//! Harness runtime.  The same harness source is compiled twice: to LLVM IR for the symbolic engine
//! (feature "symbolic": the `sym_*` primitives are the engine's) and natively, where the primitives
//! read a solver model from a replay file and re-check the assertion on the real build.
use std::fmt::Debug;

#[cfg(feature = "symbolic")]
pub mod prim {
    extern "C" {
        pub fn sym_u64(n: *const u8, l: usize) -> u64;
        pub fn sym_bytes(p: *mut u8, n: usize, s: *const u8, l: usize);
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, m: *const u8, l: usize);
        pub fn sym_assert_eq(a: *const u8, b: *const u8, n: usize, m: *const u8, l: usize);
        pub fn sym_reach(m: *const u8, l: usize);
        pub fn sym_trace(m: *const u8, l: usize, v: u64);
        pub fn sym_print(m: *const u8, l: usize);
        pub fn sym_hash(p: *const u8, n: usize, o: *mut u8, k: usize);
        pub fn sym_concretize(v: u64) -> u64;
        pub fn sym_param(n: *const u8, l: usize, d: u64) -> u64;
        pub fn sym_try(f: fn(*mut u8), d: *mut u8) -> u32;
        pub fn sym_sched_config(mode: u64, budget: u64, threads: u64);
        pub fn sym_preempt_config(budget: u64, kinds: u64);
        pub fn sym_spawn(f: fn(*mut u8), d: *mut u8) -> u64;
        pub fn sym_join(t: u64);
        pub fn sym_fault_config(mask: u64, count: u64);
        pub fn sym_faults_hit() -> u64;
        pub fn sym_open_fds() -> u64;
        pub fn sym_set_file_len(p: *const u8, l: usize, n: u64);
        pub fn sym_set_readonly(p: *const u8, l: usize);
        pub fn sym_heap_live() -> u64;
        pub fn sym_file_count() -> u64;
    }
}
#[cfg(not(feature = "symbolic"))]
pub use crate::native as prim;
use prim::*;

/// Unconstrained symbolic 64-bit value.
pub fn any(name: &str) -> u64 {
    unsafe { sym_u64(name.as_ptr(), name.len()) }
}
/// Symbolic value in lo..=hi.
pub fn range(name: &str, lo: u64, hi: u64) -> u64 {
    let v = any(name);
    assume((v >= lo) & (v <= hi));
    v
}
/// Symbolic value in lo..=hi, case-split: the engine forks over every feasible value.
pub fn pick(name: &str, lo: u64, hi: u64) -> u64 {
    conc(range(name, lo, hi))
}
pub fn conc(v: u64) -> u64 {
    unsafe { sym_concretize(v) }
}
pub fn bytes(name: &str, b: &mut [u8]) {
    unsafe { sym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
pub fn assume(c: bool) {
    unsafe { sym_assume(c) }
}
pub fn check(c: bool, m: &str) {
    unsafe { sym_assert(c, m.as_ptr(), m.len()) }
}
pub fn check_eq(a: &[u8], b: &[u8], m: &str) {
    check(a.len() == b.len(), m);
    unsafe { sym_assert_eq(a.as_ptr(), b.as_ptr(), a.len(), m.as_ptr(), m.len()) }
}
pub fn reach(m: &str) {
    unsafe { sym_reach(m.as_ptr(), m.len()) }
}
pub fn trace(m: &str, v: u64) {
    unsafe { sym_trace(m.as_ptr(), m.len(), v) }
}
pub fn print(m: &str) {
    unsafe { sym_print(m.as_ptr(), m.len()) }
}
pub fn param(n: &str, d: u64) -> u64 {
    unsafe { sym_param(n.as_ptr(), n.len(), d) }
}
pub fn hash(inp: &[u8], out: &mut [u8]) {
    unsafe { sym_hash(inp.as_ptr(), inp.len(), out.as_mut_ptr(), out.len()) }
}
/// Run `f`; Some(value) if it returned, None if it panicked.
pub fn attempt<T, F: FnOnce() -> T>(f: F) -> Option<T> {
    struct D<T, F> {
        f: Option<F>,
        r: Option<T>,
    }
    fn tramp<T, F: FnOnce() -> T>(p: *mut u8) {
        let d = unsafe { &mut *(p as *mut D<T, F>) };
        let f = d.f.take().unwrap();
        d.r = Some(f());
    }
    let mut d = D { f: Some(f), r: None };
    let c = unsafe { sym_try(tramp::<T, F>, &mut d as *mut D<T, F> as *mut u8) };
    if c == 0 {
        d.r
    } else {
        std::mem::forget(d.r.take());
        None
    }
}
/// `attempt` for a Result: Ok(v) / Err / panic, the last reported as a violation.
pub fn no_panic<T, F: FnOnce() -> T>(what: &str, f: F) -> T {
    match attempt(f) {
        Some(v) => v,
        None => {
            check(false, what);
            assume(false);
            unreachable!()
        }
    }
}
pub const SEQ: u64 = 0;
pub const RIGHT_FIRST: u64 = 1;
pub const ALL_ORDERS: u64 = 2;
pub const ONE_DEVIATION: u64 = 3;
pub const STOLEN: u64 = 4;
/// Every join runs its halves as two threads.
pub const THREADS: u64 = 5;
/// Preempt running threads at most `budget` times, at points of the given kinds.
pub fn preempt(budget: u64, kinds: u64) {
    unsafe { sym_preempt_config(budget, kinds) }
}
pub fn sched(mode: u64, budget: u64, threads: u64) {
    unsafe { sym_sched_config(mode, budget, threads) }
}
pub const F_READ: u64 = 1;
pub const F_WRITE: u64 = 2;
pub const F_OPEN: u64 = 4;
pub const F_TRUNC: u64 = 8;
pub const F_SHORT_R: u64 = 16;
pub const F_SHORT_W: u64 = 32;
pub const F_INTR: u64 = 128;
/// the process is killed: at the call (with half of it done, for a write) and nothing after it has any effect
pub const F_KILL: u64 = 64 | 256;
pub fn faults(mask: u64, count: u64) {
    unsafe { sym_fault_config(mask, count) }
}
pub fn faults_hit() -> u64 {
    unsafe { sym_faults_hit() }
}
pub fn open_fds() -> u64 {
    unsafe { sym_open_fds() }
}
/// Make a file `n` bytes long; `n` may be symbolic.
pub fn set_file_len(p: &std::path::Path, n: u64) {
    let s = p.to_str().unwrap();
    unsafe { sym_set_file_len(s.as_ptr(), s.len(), n) }
}
/// From now on the file may not be opened for writing.
pub fn set_readonly(p: &std::path::Path) {
    let s = p.to_str().unwrap();
    unsafe { sym_set_readonly(s.as_ptr(), s.len()) }
}
/// Number of files in the scratch directory.
pub fn file_count() -> u64 {
    unsafe { sym_file_count() }
}
/// Scratch directory for store files.
pub fn dir() -> &'static str {
    #[cfg(feature = "symbolic")]
    {
        "/sym"
    }
    #[cfg(not(feature = "symbolic"))]
    {
        crate::native::scratch()
    }
}
pub fn get<T, E: Debug>(r: Result<T, E>, m: &str) -> T {
    match r {
        Ok(v) => v,
        Err(_e) => {
            #[cfg(not(feature = "symbolic"))]
            eprintln!("{}: unexpected error {:?}", m, _e);
            #[cfg(feature = "symbolic")]
            if param("debug", 0) == 1 {
                print(&format!("{:?}", _e));
            }
            check(false, m);
            assume(false);
            unreachable!()
        }
    }
}

pub const AT_IO: u64 = 1;
pub const AT_ATOMICS: u64 = 2;
/// Run the closures as threads, with at most `budget` preemptions at the given kinds of points, and
/// any order of starting and continuing after a thread ends or blocks; returns when all are done.
pub fn together(budget: u64, kinds: u64, bodies: Vec<Box<dyn FnOnce() + Send + '_>>) {
    fn tramp(p: *mut u8) {
        let b: Box<Box<dyn FnOnce() + Send>> = unsafe { Box::from_raw(p as *mut Box<dyn FnOnce() + Send>) };
        b()
    }
    sched(0, 1, 1);
    let mut ids = vec![];
    for b in bodies {
        let d = Box::into_raw(Box::new(b)) as *mut u8;
        ids.push(unsafe { sym_spawn(tramp, d) });
    }
    unsafe { sym_preempt_config(budget, kinds) };
    for i in ids {
        unsafe { sym_join(i) };
    }
    unsafe { sym_preempt_config(0, 0) };
}
