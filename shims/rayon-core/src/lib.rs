//! Stand-in for rayon-core under the simulator: same interface, but the worker threads are simulated
//! threads and the scheduler decides who takes which job when. Outside a simulation everything runs inline.
#![allow(clippy::all)]

use std::any::Any;
use std::cell::Cell;
use std::fmt;
use std::io;
use std::marker::PhantomData;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Arc;

type Panic = Box<dyn Any + Send>;

/// A job: runs once, with the flag telling whether it moved to another worker.
struct Job {
    id: u64,
    owner: usize,
    run: Box<dyn FnOnce(bool) + 'static>,
}

struct Pool {
    jobs: Vec<Job>,
    workers: usize,
    started: bool,
    spawned: usize,
    next_id: u64,
}

static mut POOL: Pool = Pool { jobs: Vec::new(), workers: 3, started: false, spawned: 0, next_id: 1 };

fn pool() -> &'static mut Pool {
    unsafe { &mut *std::ptr::addr_of_mut!(POOL) }
}

thread_local! {
    static INDEX: Cell<Option<usize>> = const { Cell::new(None) };
}

const IDLE_KEY: usize = usize::MAX - 77;
const OFF_KEY: usize = usize::MAX - 78;

/// Harness: how many workers take part from now on.
pub fn sim_set_workers(n: usize) {
    pool().workers = n.max(1);
    if pool().started {
        while pool().spawned < pool().workers {
            let w = pool().spawned;
            pool().spawned += 1;
            simcore::spawn(&format!("rayon-{}", w), true, move || worker(w));
        }
        simcore::wake(OFF_KEY, usize::MAX);
    }
}
pub fn sim_pending() -> usize {
    pool().jobs.len()
}

fn in_pool() -> bool {
    INDEX.with(|i| i.get().is_some())
}
fn my_index() -> usize {
    INDEX.with(|i| i.get().unwrap_or(usize::MAX))
}

fn ensure_started() {
    if !pool().started {
        pool().started = true;
        pool().spawned = pool().workers;
        for w in 0..pool().workers {
            simcore::spawn(&format!("rayon-{}", w), true, move || worker(w));
        }
    }
}

fn worker(w: usize) {
    INDEX.with(|i| i.set(Some(w)));
    loop {
        if w >= pool().workers {
            // not taking part; whoever woke this worker meant another one
            if !pool().jobs.is_empty() {
                simcore::wake(IDLE_KEY, 1);
            }
            simcore::block(OFF_KEY, "rayon off", None);
            continue;
        }
        match take_any() {
            Some(job) => {
                simcore::step("rayon job");
                run_job(job);
            }
            None => {
                simcore::block(IDLE_KEY, "rayon idle", None);
            }
        }
    }
}

fn take_any() -> Option<Job> {
    let n = pool().jobs.len();
    if n == 0 {
        return None;
    }
    let v = if simcore::fair() { 0 } else { simcore::decide("steal", n.min(60000)) };
    // 0: the newest job, as a worker would pop from its own deque
    Some(pool().jobs.remove(n - 1 - v))
}

fn run_job(job: Job) {
    let migrated = job.owner != my_index();
    if migrated {
        simcore::count("rayon job taken by another worker");
    }
    (job.run)(migrated);
}

fn push(run: Box<dyn FnOnce(bool) + 'static>) -> u64 {
    let p = pool();
    let id = p.next_id;
    p.next_id += 1;
    p.jobs.push(Job { id, owner: my_index(), run });
    simcore::wake(IDLE_KEY, 1);
    id
}

fn take_id(id: u64) -> Option<Job> {
    let p = pool();
    p.jobs.iter().position(|j| j.id == id).map(|i| p.jobs.remove(i))
}

/// Waits until `done`, running other jobs meanwhile as a real worker does.
fn wait_helping<F: Fn() -> bool>(key: usize, done: F) {
    while !done() {
        simcore::step("rayon wait");
        if done() {
            break;
        }
        let help = if in_pool() { take_any() } else { None };
        match help {
            Some(job) => run_job(job),
            None => {
                if done() {
                    break;
                }
                simcore::block(key, "rayon latch", Some(50));
            }
        }
    }
}

unsafe fn erase<'a>(f: Box<dyn FnOnce(bool) + 'a>) -> Box<dyn FnOnce(bool) + 'static> {
    std::mem::transmute(f)
}

struct Slot<R> {
    done: Cell<bool>,
    res: Cell<Option<Result<R, Panic>>>,
}

fn in_worker<OP, R>(op: OP) -> R
where
    OP: FnOnce(bool) -> R + Send,
    R: Send,
{
    // called outside the pool: the job runs in the pool while the caller waits
    ensure_started();
    let slot = Slot { done: Cell::new(false), res: Cell::new(None) };
    let p = &slot as *const Slot<R> as usize;
    let key = p;
    {
        let run: Box<dyn FnOnce(bool) + '_> = Box::new(move |_m| {
            let slot = unsafe { &*(p as *const Slot<R>) };
            let r = catch_unwind(AssertUnwindSafe(|| op(true)));
            slot.res.set(Some(r));
            slot.done.set(true);
            simcore::wake(key, usize::MAX);
        });
        push(unsafe { erase(run) });
    }
    simcore::step("rayon inject");
    wait_helping(key, || slot.done.get());
    match slot.res.take().unwrap() {
        Ok(r) => r,
        Err(e) => resume_unwind(e),
    }
}

pub struct FnContext {
    migrated: bool,
    _marker: PhantomData<*mut ()>,
}
impl FnContext {
    fn new(migrated: bool) -> Self {
        FnContext { migrated, _marker: PhantomData }
    }
    pub fn migrated(&self) -> bool {
        self.migrated
    }
}

pub fn join<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce() -> RA + Send,
    B: FnOnce() -> RB + Send,
    RA: Send,
    RB: Send,
{
    join_context(|_| oper_a(), |_| oper_b())
}

pub fn join_context<A, B, RA, RB>(oper_a: A, oper_b: B) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    if !simcore::in_sim() {
        let a = oper_a(FnContext::new(false));
        let b = oper_b(FnContext::new(false));
        return (a, b);
    }
    if !in_pool() {
        return in_worker(move |m| join_inner(oper_a, oper_b, m));
    }
    join_inner(oper_a, oper_b, false)
}

fn join_inner<A, B, RA, RB>(oper_a: A, oper_b: B, injected: bool) -> (RA, RB)
where
    A: FnOnce(FnContext) -> RA + Send,
    B: FnOnce(FnContext) -> RB + Send,
    RA: Send,
    RB: Send,
{
    simcore::count("rayon join");
    let slot: Slot<RB> = Slot { done: Cell::new(false), res: Cell::new(None) };
    let p = &slot as *const Slot<RB> as usize;
    let id = {
        let run: Box<dyn FnOnce(bool) + '_> = Box::new(move |m| {
            let slot = unsafe { &*(p as *const Slot<RB>) };
            let r = catch_unwind(AssertUnwindSafe(|| oper_b(FnContext::new(m))));
            slot.res.set(Some(r));
            slot.done.set(true);
            simcore::wake(p, usize::MAX);
        });
        push(unsafe { erase(run) })
    };
    simcore::step("rayon fork");
    let ra = catch_unwind(AssertUnwindSafe(|| oper_a(FnContext::new(injected))));
    simcore::step("rayon joining");
    if let Some(job) = take_id(id) {
        (job.run)(injected);
    } else {
        wait_helping(p, || slot.done.get());
    }
    let rb = slot.res.take().unwrap();
    match (ra, rb) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) => resume_unwind(e),
        (_, Err(e)) => resume_unwind(e),
    }
}

fn spawn_panicked(e: Panic) -> ! {
    // the real pool aborts the process when a spawned job panics
    simcore::fail("abort", &format!("a job given to rayon::spawn panicked, which aborts the process: {}", simcore::panic_text(&e)));
}

pub fn spawn<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    if !simcore::in_sim() {
        func();
        return;
    }
    ensure_started();
    simcore::count("rayon spawn");
    push(Box::new(move |_| {
        if let Err(e) = catch_unwind(AssertUnwindSafe(func)) {
            spawn_panicked(e);
        }
    }));
    simcore::step("rayon spawn");
}

pub fn spawn_fifo<F>(func: F)
where
    F: FnOnce() + Send + 'static,
{
    spawn(func)
}

struct ScopeBase {
    pending: AtomicUsize,
    panic: std::sync::Mutex<Option<Panic>>,
}

impl ScopeBase {
    fn new() -> Arc<ScopeBase> {
        Arc::new(ScopeBase { pending: AtomicUsize::new(0), panic: std::sync::Mutex::new(None) })
    }
    fn key(self: &Arc<Self>) -> usize {
        Arc::as_ptr(self) as usize
    }
    fn go<'s>(self: &Arc<Self>, f: Box<dyn FnOnce() + Send + 's>) {
        self.pending.fetch_add(1, Ordering::SeqCst);
        let me = Arc::clone(self);
        let run: Box<dyn FnOnce(bool) + 's> = Box::new(move |_| {
            if let Err(e) = catch_unwind(AssertUnwindSafe(f)) {
                let mut g = me.panic.lock().unwrap();
                if g.is_none() {
                    *g = Some(e);
                }
            }
            me.pending.fetch_sub(1, Ordering::SeqCst);
            simcore::wake(me.key(), usize::MAX);
        });
        if simcore::in_sim() {
            ensure_started();
            push(unsafe { erase(run) });
            simcore::step("rayon scope spawn");
        } else {
            run(false);
        }
    }
    fn complete<R>(self: &Arc<Self>, r: Result<R, Panic>) -> R {
        if simcore::in_sim() {
            wait_helping(self.key(), || self.pending.load(Ordering::SeqCst) == 0);
        }
        let p = self.panic.lock().unwrap().take();
        match (r, p) {
            (Ok(r), None) => r,
            (Err(e), _) => resume_unwind(e),
            (_, Some(e)) => resume_unwind(e),
        }
    }
}

macro_rules! make_scope {
    ($Scope:ident, $spawn:ident, $spawn_broadcast:ident, $scope:ident, $in_place:ident) => {
        pub struct $Scope<'scope> {
            base: Arc<ScopeBase>,
            marker: PhantomData<Box<dyn FnOnce(&$Scope<'scope>) + Send + Sync + 'scope>>,
        }
        impl<'scope> $Scope<'scope> {
            pub fn $spawn<BODY>(&self, body: BODY)
            where
                BODY: FnOnce(&$Scope<'scope>) + Send + 'scope,
            {
                let base = Arc::clone(&self.base);
                self.base.go(Box::new(move || {
                    let s = $Scope { base, marker: PhantomData };
                    body(&s)
                }));
            }
            pub fn $spawn_broadcast<BODY>(&self, body: BODY)
            where
                BODY: Fn(&$Scope<'scope>, BroadcastContext<'_>) + Send + Sync + 'scope,
            {
                let body = Arc::new(body);
                for i in 0..current_num_threads() {
                    let base = Arc::clone(&self.base);
                    let body = Arc::clone(&body);
                    self.base.go(Box::new(move || {
                        let s = $Scope { base, marker: PhantomData };
                        body(&s, BroadcastContext::new(i))
                    }));
                }
            }
        }
        impl<'scope> fmt::Debug for $Scope<'scope> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.debug_struct(stringify!($Scope)).finish()
            }
        }
        pub fn $scope<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$Scope<'scope>) -> R + Send,
            R: Send,
        {
            if simcore::in_sim() && !in_pool() {
                return in_worker(move |_| $in_place(op));
            }
            $in_place(op)
        }
        pub fn $in_place<'scope, OP, R>(op: OP) -> R
        where
            OP: FnOnce(&$Scope<'scope>) -> R,
        {
            let s = $Scope { base: ScopeBase::new(), marker: PhantomData };
            let r = catch_unwind(AssertUnwindSafe(|| op(&s)));
            s.base.complete(r)
        }
    };
}
make_scope!(Scope, spawn, spawn_broadcast, scope, in_place_scope);
make_scope!(ScopeFifo, spawn_fifo, spawn_broadcast, scope_fifo, in_place_scope_fifo);

pub struct BroadcastContext<'a> {
    index: usize,
    _marker: PhantomData<&'a mut dyn Fn()>,
}
impl<'a> BroadcastContext<'a> {
    fn new(index: usize) -> Self {
        BroadcastContext { index, _marker: PhantomData }
    }
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn num_threads(&self) -> usize {
        current_num_threads()
    }
}
impl<'a> fmt::Debug for BroadcastContext<'a> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("BroadcastContext").field("index", &self.index).finish()
    }
}

pub fn broadcast<OP, R>(op: OP) -> Vec<R>
where
    OP: Fn(BroadcastContext<'_>) -> R + Sync,
    R: Send,
{
    (0..current_num_threads()).map(|i| op(BroadcastContext::new(i))).collect()
}

pub fn spawn_broadcast<OP>(op: OP)
where
    OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
{
    let op = Arc::new(op);
    for i in 0..current_num_threads() {
        let op = Arc::clone(&op);
        spawn(move || op(BroadcastContext::new(i)));
    }
}

pub fn max_num_threads() -> usize {
    u16::MAX as usize
}
pub fn current_num_threads() -> usize {
    pool().workers
}
pub fn current_thread_index() -> Option<usize> {
    INDEX.with(|i| i.get())
}
pub fn current_thread_has_pending_tasks() -> Option<bool> {
    current_thread_index().map(|_| !pool().jobs.is_empty())
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Yield {
    Executed,
    Idle,
}
pub fn yield_now() -> Option<Yield> {
    if !in_pool() {
        return None;
    }
    match take_any() {
        Some(j) => {
            run_job(j);
            Some(Yield::Executed)
        }
        None => Some(Yield::Idle),
    }
}
pub fn yield_local() -> Option<Yield> {
    yield_now()
}

pub struct ThreadPoolBuildError {
    msg: &'static str,
}
impl std::error::Error for ThreadPoolBuildError {}
impl fmt::Display for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.msg)
    }
}
impl fmt::Debug for ThreadPoolBuildError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(self.msg)
    }
}

pub struct ThreadBuilder {
    index: usize,
}
impl ThreadBuilder {
    pub fn index(&self) -> usize {
        self.index
    }
    pub fn name(&self) -> Option<&str> {
        None
    }
    pub fn stack_size(&self) -> Option<usize> {
        None
    }
    pub fn run(self) {}
}
impl fmt::Debug for ThreadBuilder {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadBuilder").finish()
    }
}

#[derive(Default)]
pub struct DefaultSpawn;

/// Pool sizes and names are accepted and ignored: the simulator chooses.
#[derive(Default)]
pub struct ThreadPoolBuilder<S = DefaultSpawn> {
    _s: PhantomData<S>,
}
impl ThreadPoolBuilder {
    pub fn new() -> Self {
        Self::default()
    }
}
impl<S> fmt::Debug for ThreadPoolBuilder<S> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPoolBuilder").finish()
    }
}
impl<S> ThreadPoolBuilder<S> {
    pub fn build(self) -> Result<ThreadPool, ThreadPoolBuildError> {
        Ok(ThreadPool { _p: () })
    }
    pub fn build_global(self) -> Result<(), ThreadPoolBuildError> {
        Ok(())
    }
    pub fn num_threads(self, _n: usize) -> Self {
        self
    }
    pub fn use_current_thread(self) -> Self {
        self
    }
    pub fn thread_name<F: FnMut(usize) -> String + 'static>(self, _f: F) -> Self {
        self
    }
    pub fn stack_size(self, _n: usize) -> Self {
        self
    }
    pub fn breadth_first(self) -> Self {
        self
    }
    pub fn panic_handler<H: Fn(Box<dyn Any + Send>) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn start_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn exit_handler<H: Fn(usize) + Send + Sync + 'static>(self, _h: H) -> Self {
        self
    }
    pub fn spawn_handler<F: FnMut(ThreadBuilder) -> io::Result<()>>(self, _f: F) -> ThreadPoolBuilder<S> {
        self
    }
}

pub struct ThreadPool {
    _p: (),
}
impl fmt::Debug for ThreadPool {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.debug_struct("ThreadPool").finish()
    }
}
impl ThreadPool {
    pub fn install<OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce() -> R + Send,
        R: Send,
    {
        if simcore::in_sim() && !in_pool() {
            in_worker(move |_| op())
        } else {
            op()
        }
    }
    pub fn broadcast<OP, R>(&self, op: OP) -> Vec<R>
    where
        OP: Fn(BroadcastContext<'_>) -> R + Sync,
        R: Send,
    {
        broadcast(op)
    }
    pub fn current_num_threads(&self) -> usize {
        current_num_threads()
    }
    pub fn current_thread_index(&self) -> Option<usize> {
        current_thread_index()
    }
    pub fn current_thread_has_pending_tasks(&self) -> Option<bool> {
        current_thread_has_pending_tasks()
    }
    pub fn join<A, B, RA, RB>(&self, a: A, b: B) -> (RA, RB)
    where
        A: FnOnce() -> RA + Send,
        B: FnOnce() -> RB + Send,
        RA: Send,
        RB: Send,
    {
        join(a, b)
    }
    pub fn scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R + Send,
        R: Send,
    {
        scope(op)
    }
    pub fn scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R + Send,
        R: Send,
    {
        scope_fifo(op)
    }
    pub fn in_place_scope<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&Scope<'scope>) -> R,
    {
        in_place_scope(op)
    }
    pub fn in_place_scope_fifo<'scope, OP, R>(&self, op: OP) -> R
    where
        OP: FnOnce(&ScopeFifo<'scope>) -> R,
    {
        in_place_scope_fifo(op)
    }
    pub fn spawn<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn(op)
    }
    pub fn spawn_fifo<OP>(&self, op: OP)
    where
        OP: FnOnce() + Send + 'static,
    {
        spawn(op)
    }
    pub fn spawn_broadcast<OP>(&self, op: OP)
    where
        OP: Fn(BroadcastContext<'_>) + Send + Sync + 'static,
    {
        spawn_broadcast(op)
    }
    pub fn yield_now(&self) -> Option<Yield> {
        yield_now()
    }
    pub fn yield_local(&self) -> Option<Yield> {
        yield_local()
    }
}
