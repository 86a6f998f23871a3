//! Stand-in for rayon-core in which the schedule is an input.
//!
//! * `Seq`: the first branch of every join runs before the second.
//! * `Rev`: the second branch runs before the first.
//! * `Inter(points)`: every branch is a thread, exactly one thread runs at a time, and at the
//!   listed scheduling points (`sched::point()` is called from every scalar operation) the next
//!   runnable thread takes over.
#![allow(clippy::all)]
use std::fmt;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};

pub mod sched {
    use std::cell::Cell;
    use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering as O};
    use std::sync::{Condvar, Mutex, MutexGuard};
    use std::time::Duration;

    #[derive(Clone, Debug, PartialEq)]
    pub enum Mode {
        Seq,
        Rev,
        Inter(Vec<u64>),
    }
    static THREADS: AtomicUsize = AtomicUsize::new(4);
    static REV: AtomicBool = AtomicBool::new(false);
    static INTER: AtomicBool = AtomicBool::new(false);
    static JOINS: AtomicU64 = AtomicU64::new(0);
    pub(crate) struct G {
        pub current: usize,
        pub runnable: Vec<usize>,
        pub done: Vec<bool>,
        pub waiting: Vec<Option<usize>>,
        pub step: u64,
        pub switches: Vec<u64>,
    }
    static GLOBAL: Mutex<G> = Mutex::new(G {
        current: 0,
        runnable: vec![],
        done: vec![],
        waiting: vec![],
        step: 0,
        switches: vec![],
    });
    static CV: Condvar = Condvar::new();
    thread_local! {
        static ME: Cell<usize> = const { Cell::new(usize::MAX) };
    }

    fn g() -> MutexGuard<'static, G> {
        match GLOBAL.lock() {
            Ok(g) => g,
            Err(e) => e.into_inner(),
        }
    }
    pub fn set(threads: usize, mode: Mode) {
        THREADS.store(threads.max(1), O::SeqCst);
        REV.store(mode == Mode::Rev, O::SeqCst);
        JOINS.store(0, O::SeqCst);
        let mut s = g();
        s.current = 0;
        s.runnable = vec![];
        s.done = vec![];
        s.waiting = vec![];
        s.step = 0;
        s.switches = vec![];
        INTER.store(false, O::SeqCst);
        if let Mode::Inter(p) = mode {
            s.switches = p;
            s.switches.sort();
            INTER.store(true, O::SeqCst);
        }
        ME.with(|m| m.set(usize::MAX));
    }
    pub fn threads() -> usize {
        THREADS.load(O::Relaxed)
    }
    pub fn rev() -> bool {
        REV.load(O::Relaxed)
    }
    pub fn inter() -> bool {
        INTER.load(O::Relaxed)
    }
    /// scheduling points passed and joins made since `set`
    pub fn stats() -> (u64, u64) {
        (g().step, JOINS.load(O::SeqCst))
    }
    pub(crate) fn count_join() {
        JOINS.fetch_add(1, O::SeqCst);
    }
    fn hold(mut s: MutexGuard<'static, G>, me: usize) {
        while s.current != me {
            let before = s.step;
            let cur = s.current;
            let (s2, t) = CV.wait_timeout(s, Duration::from_millis(150)).unwrap();
            s = s2;
            if t.timed_out() && s.step == before && s.current == cur {
                // the running task is blocked outside the scheduler (a lock): let this one run
                s.current = me;
            }
        }
        s.step += 1;
    }
    /// A scheduling point: another task may take over here.
    #[inline]
    pub fn point() {
        if !INTER.load(O::Relaxed) {
            return;
        }
        let me = ME.with(|m| m.get());
        if me == usize::MAX {
            return;
        }
        let mut s = g();
        if s.current == me {
            s.step += 1;
            let st = s.step;
            if s.switches.binary_search(&st).is_ok() && s.runnable.len() > 1 {
                let i = s.runnable.iter().position(|&t| t == me).unwrap_or(0);
                s.current = s.runnable[(i + 1) % s.runnable.len()];
                CV.notify_all();
            } else {
                return;
            }
        }
        hold(s, me);
    }
    pub(crate) fn register_self() -> usize {
        let me = ME.with(|m| m.get());
        if me != usize::MAX {
            return me;
        }
        let mut s = g();
        let id = s.done.len();
        s.done.push(false);
        s.waiting.push(None);
        s.runnable.push(id);
        s.current = id;
        ME.with(|m| m.set(id));
        id
    }
    pub(crate) fn new_task() -> usize {
        let mut s = g();
        let id = s.done.len();
        s.done.push(false);
        s.waiting.push(None);
        s.runnable.push(id);
        id
    }
    pub(crate) fn start(id: usize) {
        ME.with(|m| m.set(id));
        hold(g(), id);
        point();
    }
    pub(crate) fn finish(id: usize) {
        point();
        let mut s = g();
        s.done[id] = true;
        s.runnable.retain(|&t| t != id);
        let mut next = None;
        for t in 0..s.waiting.len() {
            if s.waiting[t] == Some(id) {
                s.waiting[t] = None;
                s.runnable.push(t);
                next = Some(t);
            }
        }
        if s.current == id {
            if let Some(t) = next.or(s.runnable.first().copied()) {
                s.current = t;
            }
        }
        CV.notify_all();
    }
    pub(crate) fn wait_for(me: usize, other: usize) {
        let mut s = g();
        if s.done[other] {
            return;
        }
        s.waiting[me] = Some(other);
        s.runnable.retain(|&t| t != me);
        if s.current == me {
            if let Some(&t) = s.runnable.iter().find(|&&t| t == other).or(s.runnable.first()) {
                s.current = t;
            }
        }
        CV.notify_all();
        while s.waiting[me].is_some() {
            s = CV.wait(s).unwrap();
        }
        hold(s, me);
    }
}

/// Provides the calling context to a closure called by `join_context`.
#[derive(Debug)]
pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| a(), |_| b())
}

pub fn join_context<A, B, RA, RB>(a: A, b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    sched::count_join();
    let mig = sched::threads() > 1;
    if sched::inter() {
        let me = sched::register_self();
        let tb = sched::new_task();
        let (ra, rb) = std::thread::scope(|s| {
            let h = s.spawn(move || {
                sched::start(tb);
                let r = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(mig))));
                sched::finish(tb);
                r
            });
            let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(false))));
            sched::wait_for(me, tb);
            let rb = h.join().unwrap();
            (ra, rb)
        });
        match (ra, rb) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) | (_, Err(e)) => resume_unwind(e),
        }
    } else if sched::rev() {
        let rb = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(mig))));
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(false))));
        match (ra, rb) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) | (_, Err(e)) => resume_unwind(e),
        }
    } else {
        let ra = catch_unwind(AssertUnwindSafe(|| a(FnContext::new(false))));
        let rb = catch_unwind(AssertUnwindSafe(|| b(FnContext::new(mig))));
        match (ra, rb) {
            (Ok(x), Ok(y)) => (x, y),
            (Err(e), _) | (_, Err(e)) => resume_unwind(e),
        }
    }
}

type Job<'s> = Box<dyn FnOnce() + Send + 's>;

struct Jobs<'s>(Arc<Mutex<Vec<Job<'s>>>>);

fn run_jobs(mut v: Vec<Job<'_>>) {
    match v.len() {
        0 => {}
        1 => (v.pop().unwrap())(),
        n => {
            let w = v.split_off(n / 2);
            join(|| run_jobs(v), || run_jobs(w));
        }
    }
}
impl<'s> Jobs<'s> {
    fn new() -> Self {
        Jobs(Arc::new(Mutex::new(vec![])))
    }
    fn drain(&self) {
        loop {
            let v: Vec<Job<'s>> = std::mem::take(&mut *self.0.lock().unwrap());
            if v.is_empty() {
                return;
            }
            run_jobs(v);
        }
    }
}

macro_rules! scopes {
    ($S:ident, $scope:ident, $in_place:ident, $spawn:ident) => {
        pub struct $S<'scope> {
            jobs: Jobs<'scope>,
        }
        impl<'scope> $S<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$S<'scope>) + Send + 'scope,
            {
                let q = self.jobs.0.clone();
                self.jobs.0.lock().unwrap().push(Box::new(move || {
                    let s = $S { jobs: Jobs(q) };
                    body(&s)
                }));
            }
            pub fn spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$S<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let b = Arc::new(body);
                for i in 0..sched::threads() {
                    let b = b.clone();
                    let q = self.jobs.0.clone();
                    self.jobs.0.lock().unwrap().push(Box::new(move || {
                        let s = $S { jobs: Jobs(q) };
                        b(&s, BroadcastContext { index: i, _m: PhantomData })
                    }));
                }
            }
        }
        impl<'scope> fmt::Debug for $S<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(stringify!($S))
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$S<'scope>) -> R + Send,
            R: Send,
        {
            $in_place(op)
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$S<'scope>) -> R,
        {
            let s = $S { jobs: Jobs::new() };
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            s.jobs.drain();
            match r {
                Ok(r) => r,
                Err(e) => resume_unwind(e),
            }
        }
    };
}
scopes!(Scope, scope, in_place_scope, spawn);
scopes!(ScopeFifo, scope_fifo, in_place_scope_fifo, spawn_fifo);

pub fn spawn<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}
pub fn spawn_fifo<F>(f: F)
where
    F: FnOnce() + Send + 'static,
{
    f()
}

pub struct BroadcastContext<'a> {
    index: usize,
    _m: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        sched::threads()
    }
}
impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("BroadcastContext")
    }
}
pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    let n = sched::threads();
    let out: Vec<Mutex<Option<R>>> = (0..n).map(|_| Mutex::new(None)).collect();
    let jobs: Vec<Job> = (0..n)
        .map(|i| {
            let (op, out) = (&op, &out);
            Box::new(move || {
                let r = op(BroadcastContext { index: i, _m: PhantomData });
                *out[i].lock().unwrap() = Some(r);
            }) as Job
        })
        .collect();
    run_jobs(jobs);
    out.into_iter().map(|m| m.into_inner().unwrap().unwrap()).collect()
}
pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    broadcast(op);
}

pub fn current_num_threads() -> usize {
    sched::threads()
}
pub fn max_num_threads() -> usize {
    255
}
pub fn current_thread_index() -> Option<usize> {
    None
}
#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    sched::point();
    None
}
pub fn yield_local() -> Option<Yield> {
    sched::point();
    None
}

#[derive(Debug)]
pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
#[derive(Debug)]
pub struct ThreadPoolBuildError {
    _p: (),
}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("ThreadPoolBuildError")
    }
}
impl std::error::Error for ThreadPoolBuildError {}

pub struct ThreadPoolBuilder<S = ()> {
    n: usize,
    _m: PhantomData<S>,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        ThreadPoolBuilder { n: 0, _m: PhantomData }
    }
}
impl Default for ThreadPoolBuilder {
    fn default() -> Self {
        Self::new()
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn num_threads(mut self, n: usize) -> Self {
        self.n = n;
        self
    }
    pub fn thread_name<F>(self, _f: F) -> Self
    where
        F: FnMut(usize) -> String + 'static,
    {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { n: if self.n == 0 { sched::threads() } else { self.n } })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
}
#[derive(Debug)]
pub struct ThreadPool {
    n: usize,
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        op()
    }
    pub fn current_num_threads(&self) -> usize {
        self.n
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        None
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        op()
    }
}
