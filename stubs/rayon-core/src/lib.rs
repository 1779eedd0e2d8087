//! Sequential stand-in for rayon-core: every `join` runs its two closures one
//! after the other on the calling thread, and the pool has one thread.  The
//! real `rayon` iterator library is compiled on top of it.
use std::marker::PhantomData;
use std::fmt;

pub struct FnContext { migrated: bool, _m: PhantomData<*mut ()> }
impl FnContext {
    fn new() -> Self { FnContext { migrated: false, _m: PhantomData } }
    pub fn migrated(&self) -> bool { self.migrated }
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send {
    (a(), b())
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where A: FnOnce(FnContext) -> RA + Send, B: FnOnce(FnContext) -> RB + Send, RA: Send, RB: Send {
    (a(FnContext::new()), b(FnContext::new()))
}
pub fn current_num_threads() -> usize { 1 }
pub fn max_num_threads() -> usize { 1 }
pub fn current_thread_index() -> Option<usize> { Some(0) }

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield { Executed, Idle }
pub fn yield_now() -> Option<Yield> { Some(Yield::Idle) }
pub fn yield_local() -> Option<Yield> { Some(Yield::Idle) }

pub struct Scope<'s> { _m: PhantomData<&'s mut &'s ()> }
impl<'s> Scope<'s> {
    pub fn spawn<B>(&self, body: B) where B: FnOnce(&Scope<'s>) + Send + 's { body(self) }
}
pub struct ScopeFifo<'s> { _m: PhantomData<&'s mut &'s ()> }
impl<'s> ScopeFifo<'s> {
    pub fn spawn_fifo<B>(&self, body: B) where B: FnOnce(&ScopeFifo<'s>) + Send + 's { body(self) }
}
pub fn scope<'s, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R + Send, R: Send { op(&Scope { _m: PhantomData }) }
pub fn in_place_scope<'s, OP, R>(op: OP) -> R where OP: FnOnce(&Scope<'s>) -> R { op(&Scope { _m: PhantomData }) }
pub fn scope_fifo<'s, OP, R>(op: OP) -> R where OP: FnOnce(&ScopeFifo<'s>) -> R + Send, R: Send { op(&ScopeFifo { _m: PhantomData }) }
pub fn in_place_scope_fifo<'s, OP, R>(op: OP) -> R where OP: FnOnce(&ScopeFifo<'s>) -> R { op(&ScopeFifo { _m: PhantomData }) }
pub fn spawn<F>(func: F) where F: FnOnce() + Send + 'static { func() }
pub fn spawn_fifo<F>(func: F) where F: FnOnce() + Send + 'static { func() }

pub struct BroadcastContext<'a> { _m: PhantomData<&'a mut ()> }
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize { 0 }
    pub fn num_threads(&self) -> usize { 1 }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R> where OP: Fn(BroadcastContext<'_>) -> R + Sync, R: Send {
    vec![op(BroadcastContext { _m: PhantomData })]
}
pub fn spawn_broadcast<OP>(op: OP) where OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static {
    op(BroadcastContext { _m: PhantomData })
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("thread pool") }
}
impl std::error::Error for ThreadPoolBuildError {}
#[derive(Debug)]
pub struct ThreadPool;
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R where OP: FnOnce() -> R + Send, R: Send { op() }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where A: FnOnce() -> RA + Send, B: FnOnce() -> RB + Send, RA: Send, RB: Send { (a(), b()) }
    pub fn current_num_threads(&self) -> usize { 1 }
}
#[derive(Debug, Default)]
pub struct ThreadBuilder;
#[derive(Debug, Default)]
pub struct ThreadPoolBuilder;
impl ThreadPoolBuilder {
    pub fn new() -> Self { ThreadPoolBuilder }
    pub fn num_threads(self, _n: usize) -> Self { self }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> { Ok(ThreadPool) }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> { Ok(()) }
}
