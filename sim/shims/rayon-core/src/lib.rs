//! rayon-core's interface on top of the simulator's scheduler.
//!
//! Every job is run by the seeded scheduler of the current simulated run: inline in an order it
//! picks, or on a parked thread of its own that is interleaved with the others at the library's
//! own transcript and randomness operations.  `rayon` itself (parallel iterators) is the real crate.
use std::error::Error;
use std::fmt;
use std::marker::PhantomData;

#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _m: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _m: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}
pub fn max_num_threads() -> usize {
    1 << 8
}
pub fn current_num_threads() -> usize {
    simctx::workers()
}
pub fn current_thread_index() -> Option<usize> {
    Some(0)
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    simctx::yield_point(20);
    Some(Yield::Idle)
}
pub fn yield_local() -> Option<Yield> {
    simctx::yield_point(21);
    Some(Yield::Idle)
}
pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    simctx::join(true, |_| a(), |_| b())
}
pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    simctx::join(false, |m| a(FnContext::new(m)), |m| b(FnContext::new(m)))
}

macro_rules! scopes {
    ($Scope:ident, $scope:ident, $in_place:ident, $spawn:ident) => {
        pub struct $Scope<'scope> {
            jobs: simctx::JobSet<'scope>,
            _m: PhantomData<Box<dyn FnOnce(&$Scope<'scope>) + Send + Sync + 'scope>>,
        }
        struct $spawn<'scope>(*const $Scope<'scope>);
        // SAFETY: the scope outlives every job, and JobSet is synchronised
        unsafe impl Send for $spawn<'_> {}
        unsafe impl Sync for $Scope<'_> {}
        impl<'scope> $spawn<'scope> {
            fn get(&self) -> *const $Scope<'scope> {
                self.0
            }
        }
        impl<'scope> $Scope<'scope> {
            fn add<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$Scope<'scope>) + Send + 'scope,
            {
                let p = $spawn(self as *const _);
                self.jobs.add(Box::new(move || {
                    // SAFETY: `finish` runs every job before the scope is dropped
                    let s: &$Scope<'scope> = unsafe { &*p.get() };
                    body(s)
                }));
            }
        }
        impl fmt::Debug for $Scope<'_> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($Scope))
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$Scope<'scope>) -> R + Send,
            R: Send,
        {
            $in_place(op)
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$Scope<'scope>) -> R,
        {
            let s = $Scope { jobs: Default::default(), _m: PhantomData };
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| op(&s)));
            s.jobs.finish();
            match r {
                Ok(r) => r,
                Err(p) => std::panic::resume_unwind(p),
            }
        }
    };
}
scopes!(Scope, scope, in_place_scope, Ptr1);
scopes!(ScopeFifo, scope_fifo, in_place_scope_fifo, Ptr2);
impl<'scope> Scope<'scope> {
    pub fn spawn<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&Scope<'scope>) + Send + 'scope,
    {
        self.add(body)
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        self.add(move |s| body(s, BroadcastContext { _p: PhantomData }))
    }
}
impl<'scope> ScopeFifo<'scope> {
    pub fn spawn_fifo<BODY>(&self, body: BODY)
    where
        BODY: FnOnce(&ScopeFifo<'scope>) + Send + 'scope,
    {
        self.add(body)
    }
    pub fn spawn_broadcast<BODY>(&self, body: BODY)
    where
        BODY: Fn(&ScopeFifo<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
    {
        self.add(move |s| body(s, BroadcastContext { _p: PhantomData }))
    }
}
pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}
pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}
pub struct BroadcastContext<'a> {
    _p: PhantomData<&'a mut dyn Fn()>,
}
impl BroadcastContext<'_> {
    pub fn index(&self) -> usize {
        0
    }
    pub fn num_threads(&self) -> usize {
        1
    }
}
impl fmt::Debug for BroadcastContext<'_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    vec![op(BroadcastContext { _p: PhantomData })]
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    op(BroadcastContext { _p: PhantomData })
}

#[derive(Debug)]
pub struct ThreadPoolBuildError;
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("thread pool")
    }
}
impl Error for ThreadPoolBuildError {}
#[derive(Debug)]
pub struct ThreadBuilder;
#[derive(Debug, Default)]
pub struct ThreadPoolBuilder;
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn thread_name<F>(self, _f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool)
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool;
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        op()
    }
}
