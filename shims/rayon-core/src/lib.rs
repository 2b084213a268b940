//! Environment stub for rayon's thread pool, used only in the symbolic build.
//!
//! The real `rayon` iterator layer sits on top of this unchanged.  Where rayon-core would hand
//! the second closure of a `join` to another worker, this stub asks the symbolic engine which
//! of the two runs first (`sym_sched_choice`), and `current_num_threads` is whatever the harness
//! configured.  With the engine in "fixed schedule" mode the choice is always 0 (left first).
#![allow(clippy::all)]
use std::fmt;
use std::marker::PhantomData;

extern "C" {
    fn sym_sched_choice() -> u32;
    fn sym_num_threads() -> usize;
    fn sym_spawn(f: fn(*mut u8), d: *mut u8) -> u64;
    fn sym_join(t: u64);
}
fn run_boxed(d: *mut u8) {
    let b: Box<Box<dyn FnOnce() + Send>> = unsafe { Box::from_raw(d as *mut Box<dyn FnOnce() + Send>) };
    b()
}

pub fn max_num_threads() -> usize { 65535 }
pub fn current_num_threads() -> usize { unsafe { sym_num_threads() } }
pub fn current_thread_index() -> Option<usize> { Some(0) }
pub fn current_thread_has_pending_tasks() -> Option<bool> { Some(false) }

#[derive(Debug)]
pub struct FnContext { migrated: bool, _m: PhantomData<*mut ()> }
impl FnContext {
    fn new(migrated: bool) -> Self { FnContext { migrated, _m: PhantomData } }
    pub fn migrated(&self) -> bool { self.migrated }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce(FnContext) -> RA + Send, B: FnOnce(FnContext) -> RB + Send, RA: Send, RB: Send {
    match unsafe { sym_sched_choice() } {
        // left first, right not stolen
        0 => { let ra = a(FnContext::new(false)); let rb = b(FnContext::new(false)); (ra, rb) }
        // right first, stolen by another worker
        1 => { let rb = b(FnContext::new(true)); let ra = a(FnContext::new(false)); (ra, rb) }
        // a thread of its own for the right half; the engine interleaves the two
        9 => {
            let mut rb = None;
            let ra = {
                let out = &mut rb;
                let body: Box<dyn FnOnce() + Send + '_> = Box::new(move || *out = Some(b(FnContext::new(true))));
                let t = unsafe { sym_spawn(run_boxed, Box::into_raw(Box::new(body)) as *mut u8) };
                let ra = a(FnContext::new(false));
                unsafe { sym_join(t) };
                ra
            };
            (ra, rb.expect("the right half has run"))
        }
        // left first, right stolen (affects splitting)
        _ => { let ra = a(FnContext::new(false)); let rb = b(FnContext::new(true)); (ra, rb) }
    }
}

pub struct Scope<'scope> { _m: PhantomData<&'scope mut &'scope ()> }
pub struct ScopeFifo<'scope> { _m: PhantomData<&'scope mut &'scope ()> }
impl<'scope> Scope<'scope> {
    pub fn spawn<B>(&self, body: B) where B: FnOnce(&Scope<'scope>) + Send + 'scope { body(self) }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<B>(&self, body: B) where B: FnOnce(&ScopeFifo<'scope>) + Send + 'scope { body(self) }
}
pub fn scope<'scope, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'scope>) -> R + Send, R: Send { op(&Scope { _m: PhantomData }) }
pub fn in_place_scope<'scope, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'scope>) -> R { op(&Scope { _m: PhantomData }) }
pub fn scope_fifo<'scope, OP, R>(op: OP) -> R where OP: FnOnce(&ScopeFifo<'scope>) -> R + Send, R: Send { op(&ScopeFifo { _m: PhantomData }) }
pub fn in_place_scope_fifo<'scope, OP, R>(op: OP) -> R where OP: FnOnce(&ScopeFifo<'scope>) -> R { op(&ScopeFifo { _m: PhantomData }) }
pub fn spawn<F: FnOnce() + Send + 'static>(f: F) { f() }
pub fn spawn_fifo<F: FnOnce() + Send + 'static>(f: F) { f() }

pub struct BroadcastContext<'a> { _m: PhantomData<&'a mut dyn Fn()> }
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize { 0 }
    pub fn num_threads(&self) -> usize { 1 }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R> where OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send { vec![op(BroadcastContext { _m: PhantomData })] }
pub fn spawn_broadcast<OP>(op: OP) where OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static { op(BroadcastContext { _m: PhantomData }) }

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield { Executed, Idle }
pub fn yield_now() -> Option<Yield> { Some(Yield::Idle) }
pub fn yield_local() -> Option<Yield> { Some(Yield::Idle) }

pub struct ThreadBuilder { _p: () }
#[derive(Debug)]
pub struct ThreadPoolBuildError { _p: () }
impl fmt::Display for ThreadPoolBuildError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("stub") } }
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Debug)]
pub struct ThreadPool { _p: () }
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R where OP: FnOnce() -> R + Send, R: Send { op() }
    pub fn current_num_threads(&self) -> usize { current_num_threads() }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { join(a, b) }
}
#[derive(Debug, Default)]
pub struct ThreadPoolBuilder { _p: () }
impl ThreadPoolBuilder {
    pub fn new() -> Self { Self::default() }
    pub fn num_threads(self, _n: usize) -> Self { self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool { _p: () }) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
}
