//! The deterministic scheduler.
//!
//! Simulated threads are OS threads of which exactly one, the holder of the baton, runs at a time.
//! At every yield point the scheduler decides who continues. Every decision (scheduling, faults, workload
//! draws, memory-model choices) goes through `decide`, is recorded in a trace in shared memory, and can be
//! replayed from it. One run happens in one forked process, so that every run starts from the same process state.
#![feature(thread_local)]
#![allow(static_mut_ref)]
#![allow(clippy::all)]

use std::cell::Cell;
use std::sync::atomic::{AtomicU32, Ordering};

pub mod raw;
pub mod rng;
pub mod shared;
pub mod tasks;

use rng::Rng;
use shared::Shared;

pub const NONE: usize = usize::MAX;

#[thread_local]
static ME: Cell<usize> = Cell::new(NONE);
/// Non-zero while this thread is inside the simulator itself (intercepted calls then pass through).
#[thread_local]
static BUSY: Cell<u32> = Cell::new(0);

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum St {
    Runnable,
    Blocked,
    Finished,
}

struct Thread {
    word: &'static AtomicU32,
    st: St,
    name: String,
    key: usize,
    what: &'static str,
    wake_at: Option<u64>,
    timed_out: bool,
    prio: u64,
    steps: u64,
    /// Daemons (pool workers) do not count as unfinished business.
    daemon: bool,
    frozen: bool,
}

#[derive(Clone, Debug)]
pub enum Strategy {
    /// Switch with this probability (per mille) at each yield point, to a uniformly chosen thread.
    Random(u32),
    /// Strict priorities with a number of change points among the first `horizon` steps.
    Pct { points: Vec<u64> },
    /// One thread is not scheduled during a window, random otherwise.
    Stall { victim: usize, from: u64, to: u64, p: u32 },
}

pub struct Config {
    pub seed: u64,
    /// None: record. Some: replay these streams (per kind), default 0 afterwards.
    pub replay: Option<Vec<(String, Vec<u16>)>>,
    /// Steps before the scheduler turns fair and fault free.
    pub chaos_steps: u64,
    /// Further steps after which lack of completion is a violation.
    pub fair_steps: u64,
}

struct Stream {
    kind: &'static str,
    values: Vec<u16>,
    pos: usize,
}

pub struct State {
    threads: Vec<Thread>,
    cur: usize,
    rng: Rng,
    strat: Strategy,
    replay: Option<Vec<(String, Vec<u16>)>>,
    streams: Vec<Stream>,
    time: u64,
    steps: u64,
    switches: u64,
    hash: u64,
    sched_hash: u64,
    fair: bool,
    rr: u32,
    chaos_steps: u64,
    fair_steps: u64,
    main_word: &'static AtomicU32,
    done: bool,
    counters: Vec<(&'static str, u64)>,
    sh: &'static mut Shared,
    log: Option<Vec<String>>,
    prio_next_low: u64,
}

static mut ST: *mut State = std::ptr::null_mut();

fn st() -> &'static mut State {
    unsafe { &mut *ST }
}

pub struct Busy;
impl Busy {
    pub fn new() -> Busy {
        BUSY.set(BUSY.get() + 1);
        Busy
    }
}
impl Drop for Busy {
    fn drop(&mut self) {
        BUSY.set(BUSY.get() - 1);
    }
}

/// Is the caller a simulated thread, outside the simulator's own code?
#[inline]
pub fn in_sim() -> bool {
    ME.get() != NONE && BUSY.get() == 0
}
/// Is the caller a simulated thread?
#[inline]
pub fn on_sim_thread() -> bool {
    ME.get() != NONE
}
pub fn me() -> usize {
    ME.get()
}
pub fn active() -> bool {
    unsafe { !ST.is_null() }
}

fn mix(h: u64, v: u64) -> u64 {
    let mut x = h ^ v.wrapping_add(0x9E37_79B9_7F4A_7C15).wrapping_add(h << 6).wrapping_add(h >> 2);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    x ^ (x >> 27)
}

impl State {
    fn stream(&mut self, kind: &'static str) -> usize {
        for (i, s) in self.streams.iter().enumerate() {
            if s.kind == kind {
                return i;
            }
        }
        let values = match &self.replay {
            Some(r) => r
                .iter()
                .find(|(k, _)| k == kind)
                .map(|(_, v)| v.clone())
                .unwrap_or_default(),
            None => Vec::new(),
        };
        self.streams.push(Stream { kind, values, pos: 0 });
        let i = self.streams.len() - 1;
        self.sh.set_kind(i, kind);
        i
    }

    /// Records or replays one decision. `propose` is used only when recording.
    fn decide_with<F: FnOnce(&mut State) -> usize>(&mut self, kind: &'static str, n: usize, propose: F) -> usize {
        if n <= 1 {
            return 0;
        }
        let si = self.stream(kind);
        let v = if self.replay.is_some() {
            let s = &mut self.streams[si];
            let v = s.values.get(s.pos).copied().unwrap_or(0) as usize;
            s.pos += 1;
            v % n
        } else {
            let v = propose(self);
            debug_assert!(v < n);
            v
        };
        self.sh.push(si as u8, v as u16);
        self.hash = mix(self.hash, ((si as u64) << 32) | v as u64);
        v
    }

    fn runnable(&self, i: usize) -> bool {
        if self.threads[i].frozen {
            return false;
        }
        match self.threads[i].st {
            St::Runnable => true,
            St::Blocked => match self.threads[i].wake_at {
                Some(t) => t <= self.time,
                None => false,
            },
            St::Finished => false,
        }
    }

    fn tick(&mut self) {
        self.steps += 1;
        self.time += 1;
        self.threads[self.cur].steps += 1;
        if !self.fair && self.steps >= self.chaos_steps {
            self.fair = true;
        }
        if self.steps >= self.chaos_steps + self.fair_steps {
            let d = self.describe();
            fail("no-progress", &format!("no completion within {} fair steps after faults and unfair scheduling stopped; threads: {}", self.fair_steps, d));
        }
    }

    fn describe(&self) -> String {
        let mut d = String::new();
        for (i, t) in self.threads.iter().enumerate() {
            if t.st != St::Finished {
                d.push_str(&format!("[{} {} {:?}{} at {}{}] ", i, t.name, t.st, if t.frozen { " stalled" } else { "" }, t.what, if i == self.cur { " *" } else { "" }));
            }
        }
        d
    }

    /// Chooses who runs next. `prefer_other`: the current thread gave up its turn.
    fn pick(&mut self, prefer_other: bool) -> usize {
        let cur = self.cur;
        let mut list: Vec<usize> = Vec::with_capacity(self.threads.len());
        if self.runnable(cur) && !prefer_other {
            list.push(cur);
        }
        for i in 0..self.threads.len() {
            if i != cur && self.runnable(i) {
                list.push(i);
            }
        }
        if prefer_other && self.runnable(cur) {
            list.push(cur);
        }
        if list.is_empty() {
            // advance the clock to the next timeout
            let next = self.threads.iter().filter(|t| t.st == St::Blocked && !t.frozen).filter_map(|t| t.wake_at).min();
            match next {
                Some(t) => {
                    self.time = t;
                    return self.pick(prefer_other);
                }
                None => {
                    let d = self.describe();
                    fail("deadlock", &format!("every thread is blocked: {}", d));
                }
            }
        }
        let n = list.len();
        let v = if self.fair {
            // round robin with a small quantum, a pure function of the state
            self.rr = self.rr.wrapping_add(1);
            if n > 1 && (prefer_other || self.rr % 3 == 0) {
                // smallest id greater than the current one, cyclically
                let mut best = 0;
                let mut bestd = usize::MAX;
                for (i, t) in list.iter().enumerate() {
                    let d = (*t + self.threads.len() - cur - 1) % self.threads.len();
                    if d < bestd {
                        bestd = d;
                        best = i;
                    }
                }
                best
            } else {
                0
            }
        } else {
            let l2 = list.clone();
            self.decide_with("sched", n, move |s| {
                let steps = s.steps;
                match s.strat.clone() {
                    Strategy::Random(p) => {
                        if s.rng.below(1000) < p as usize {
                            s.rng.below(n)
                        } else {
                            0
                        }
                    }
                    Strategy::Pct { points } => {
                        if prefer_other || points.contains(&steps) {
                            s.prio_next_low -= 1;
                            let low = s.prio_next_low;
                            s.threads[cur].prio = low;
                        }
                        let mut best = 0;
                        for i in 1..n {
                            if s.threads[l2[i]].prio > s.threads[l2[best]].prio {
                                best = i;
                            }
                        }
                        best
                    }
                    Strategy::Stall { victim, from, to, p } => {
                        let stalled = steps >= from && steps < to;
                        let ok: Vec<usize> = (0..n).filter(|i| !(stalled && l2[*i] == victim)).collect();
                        if ok.is_empty() {
                            0
                        } else if !ok.contains(&0) || s.rng.below(1000) < p as usize {
                            ok[s.rng.below(ok.len())]
                        } else {
                            0
                        }
                    }
                }
            })
        };
        list[v]
    }

    fn resume(&mut self, i: usize) {
        let t = &mut self.threads[i];
        if t.st == St::Blocked {
            t.timed_out = true;
            t.st = St::Runnable;
            t.wake_at = None;
        }
    }

    fn set_cur(&mut self, next: usize) {
        if self.cur != next {
            self.switches += 1;
            self.sched_hash = mix(self.sched_hash, ((next as u64) << 40) ^ (self.threads[next].steps << 8) ^ self.threads[self.cur].steps);
        }
        self.cur = next;
        self.resume(next);
        if let Some(l) = &mut self.log {
            if l.len() < 200_000 {
                l.push(format!("{} t{} {}", self.steps, next, self.threads[next].what));
            }
        }
    }
}

fn hand_over(next: usize, myword: &'static AtomicU32) {
    let w = st().threads[next].word;
    w.store(1, Ordering::SeqCst);
    raw::futex_wake(w, 1);
    wait_word(myword);
}

fn wait_word(w: &'static AtomicU32) {
    while w.swap(0, Ordering::SeqCst) == 0 {
        raw::futex_wait(w, 0);
    }
}

fn reschedule(prefer_other: bool) {
    let s = st();
    let cur = s.cur;
    let next = s.pick(prefer_other);
    let word = s.threads[cur].word;
    s.set_cur(next);
    if next != cur {
        hand_over(next, word);
    }
}

/// A yield point.
pub fn step(what: &'static str) {
    if !in_sim() {
        return;
    }
    let _b = Busy::new();
    let s = st();
    s.threads[s.cur].what = what;
    s.tick();
    reschedule(false);
}

/// A yield point at which the caller gives up its turn (spinning).
pub fn yield_now(what: &'static str) {
    if !in_sim() {
        return;
    }
    let _b = Busy::new();
    let s = st();
    s.threads[s.cur].what = what;
    s.tick();
    reschedule(true);
}

/// Blocks until `wake(key, ..)`, or until `timeout` units of simulated time have passed. Returns true if woken.
pub fn block(key: usize, what: &'static str, timeout: Option<u64>) -> bool {
    assert!(in_sim());
    let _b = Busy::new();
    let s = st();
    let cur = s.cur;
    s.tick();
    let wake_at = timeout.map(|t| s.time + t);
    {
        let t = &mut s.threads[cur];
        t.what = what;
        t.st = St::Blocked;
        t.key = key;
        t.wake_at = wake_at;
        t.timed_out = false;
    }
    reschedule(true);
    !st().threads[cur].timed_out
}

/// Wakes up to `n` threads blocked on `key`; does not itself yield.
pub fn wake(key: usize, n: usize) -> usize {
    if !on_sim_thread() {
        return 0;
    }
    let _b = Busy::new();
    let s = st();
    let mut count = 0;
    while count < n {
        let w: Vec<usize> = (0..s.threads.len())
            .filter(|i| s.threads[*i].st == St::Blocked && s.threads[*i].key == key)
            .collect();
        if w.is_empty() {
            break;
        }
        let v = if w.len() > 1 && n < w.len() && !s.fair {
            let l = w.len();
            s.decide_with("wake", l, |s| s.rng.below(l))
        } else {
            0
        };
        let t = &mut s.threads[w[v]];
        t.st = St::Runnable;
        t.wake_at = None;
        t.timed_out = false;
        count += 1;
    }
    count
}

pub fn sleep(t: u64) {
    if in_sim() {
        block(NONE - 1, "sleep", Some(t));
    }
}

/// A recorded nondeterministic choice in 0..n; 0 is the simplest.
pub fn decide(kind: &'static str, n: usize) -> usize {
    assert!(on_sim_thread(), "decide outside the simulation");
    let _b = Busy::new();
    assert!(n < 65536);
    st().decide_with(kind, n, |s| s.rng.below(n))
}

/// A recorded yes/no choice, true with the given probability (per mille); false is the simplest.
/// After faults have stopped (fair mode) it is always false.
pub fn chance(kind: &'static str, permille: usize) -> bool {
    if !on_sim_thread() {
        return false;
    }
    let _b = Busy::new();
    let s = st();
    if s.fair || permille == 0 {
        return false;
    }
    s.decide_with(kind, 2, |s| (s.rng.below(1000) < permille) as usize) == 1
}

/// As `chance`, for choices that are part of the workload, not faults.
pub fn flip(kind: &'static str, permille: usize) -> bool {
    let _b = Busy::new();
    st().decide_with(kind, 2, |s| (s.rng.below(1000) < permille) as usize) == 1
}

/// An unrecorded pseudo random number derived from the run's seed. Used for entropy given to the code under test.
pub fn entropy() -> u64 {
    if !active() {
        return 0x1234_5678;
    }
    let s = st();
    s.rng_entropy()
}

impl State {
    fn rng_entropy(&mut self) -> u64 {
        self.sh.entropy = self.sh.entropy.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        mix(self.sh.entropy, 77)
    }
}

pub fn fair() -> bool {
    active() && st().fair
}
/// The rest of the run may take `factor` times as many steps in fair mode (it has that much more to do).
pub fn more_steps(factor: u64) {
    if active() {
        let s = st();
        s.fair_steps *= factor;
    }
}
/// Ends chaos now: fair scheduling, no faults.
pub fn stop_faults() {
    let s = st();
    if !s.fair {
        s.fair = true;
        s.chaos_steps = s.steps;
    }
}
pub fn now() -> u64 {
    st().time
}
pub fn steps() -> u64 {
    st().steps
}
/// Steps another thread has taken.
pub fn steps_of(id: usize) -> u64 {
    st().threads[id].steps
}
pub fn my_steps() -> u64 {
    st().threads[ME.get()].steps
}
pub fn advance_time(t: u64) {
    if on_sim_thread() {
        st().time += t;
    }
}
/// A frozen thread is not scheduled until it is released: a stalled thread or node.
pub fn freeze(id: usize, on: bool) {
    st().threads[id].frozen = on;
}
/// Where the thread last was.
pub fn at(id: usize) -> &'static str {
    st().threads[id].what
}
pub fn is_blocked(id: usize) -> bool {
    st().threads[id].st == St::Blocked
}
pub fn set_strategy_victim(v: usize) {
    if let Strategy::Stall { victim, .. } = &mut st().strat {
        *victim = v;
    }
}

/// Counts an event (fault injected, operation performed) for the evidence.
pub fn count(name: &'static str) {
    count_n(name, 1)
}
pub fn count_n(name: &'static str, n: u64) {
    if !active() || ME.get() == NONE {
        return;
    }
    let _b = Busy::new();
    let s = st();
    for c in s.counters.iter_mut() {
        if c.0 == name {
            c.1 += n;
            return;
        }
    }
    s.counters.push((name, n));
}

/// Folds an observation into the run's event hash.
pub fn observe(v: u64) {
    if active() {
        let s = st();
        s.hash = mix(s.hash, v);
    }
}
/// Folds into the hash that tells distinct behaviours apart.
pub fn observe_state(v: u64) {
    if active() {
        let s = st();
        s.hash = mix(s.hash, v);
        s.sh.state_hash = mix(s.sh.state_hash, v);
    }
}

/// Text attached to a run (a sample for the evidence, or detail for a violation).
pub fn note(text: &str) {
    if active() {
        let _b = Busy::new();
        st().sh.append_note(text);
    }
}

/// Reports a violation and ends the run (the process).
pub fn fail(category: &str, message: &str) -> ! {
    let _b = Busy::new();
    if active() {
        let s = st();
        s.sh.set_failure(category, message);
        finish_stats();
        dump_log();
        raw::exit_group(3);
    }
    eprintln!("FAIL outside simulation: {} {}", category, message);
    raw::exit_group(4);
}

fn dump_log() {
    let s = st();
    if let Some(l) = &s.log {
        let mut out = String::new();
        for x in l {
            out.push_str(x);
            out.push('\n');
        }
        raw::write_all(2, out.as_bytes());
    }
}

fn finish_stats() {
    let s = st();
    s.sh.steps = s.steps;
    s.sh.time = s.time;
    s.sh.switches = s.switches;
    s.sh.threads = s.threads.len() as u64;
    s.sh.hash = s.hash;
    s.sh.sched_hash = s.sched_hash;
    s.sh.set_counters(&s.counters);
}

/// Starts a simulated thread. It runs when the scheduler picks it.
pub fn spawn<F: FnOnce() + Send + 'static>(name: &str, daemon: bool, f: F) -> usize {
    let _b = Busy::new();
    let s = st();
    let id = s.threads.len();
    let word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    let prio = (1u64 << 40) + s.rng_entropy() % (1 << 30);
    s.threads.push(Thread {
        word,
        st: St::Runnable,
        name: name.to_string(),
        key: 0,
        what: "start",
        wake_at: None,
        timed_out: false,
        prio,
        steps: 0,
        daemon,
        frozen: false,
    });
    let ready: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    std::thread::Builder::new()
        .stack_size(4 << 20)
        .spawn(move || {
            // the creator goes on only once this thread has arrived here
            ready.store(1, Ordering::SeqCst);
            raw::futex_wake(ready, 1);
            wait_word(word);
            ME.set(id);
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let b = Busy::new();
            if let Err(e) = r {
                let m = panic_text(&e);
                fail("panic", &format!("thread {} panicked: {}", st().threads[id].name, m));
            }
            std::mem::forget(b);
            let s = st();
            s.threads[id].st = St::Finished;
            ME.set(NONE);
            BUSY.set(0);
            if id == 0 {
                s.done = true;
                s.main_word.store(1, Ordering::SeqCst);
                raw::futex_wake(s.main_word, 1);
                return;
            }
            wake_joiners(id);
            let next = s.pick(true);
            s.set_cur(next);
            let w = s.threads[next].word;
            w.store(1, Ordering::SeqCst);
            raw::futex_wake(w, 1);
            // leaving would give back memory while others run, and so decide which addresses they get
            static FOREVER: AtomicU32 = AtomicU32::new(0);
            loop {
                raw::futex_wait(&FOREVER, 0);
            }
        })
        .unwrap();
    while ready.load(Ordering::SeqCst) == 0 {
        raw::futex_wait(ready, 0);
    }
    id
}

fn join_key(id: usize) -> usize {
    usize::MAX - 1000 - id
}

fn wake_joiners(id: usize) {
    let s = st();
    let key = join_key(id);
    for t in s.threads.iter_mut() {
        if t.st == St::Blocked && t.key == key {
            t.st = St::Runnable;
            t.wake_at = None;
            t.timed_out = false;
        }
    }
}

pub fn finished(id: usize) -> bool {
    st().threads[id].st == St::Finished
}

pub fn join(id: usize) {
    while !finished(id) {
        block(join_key(id), "join", None);
    }
}

pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = e.downcast_ref::<&'static str>() {
        s.to_string()
    } else if let Some(s) = e.downcast_ref::<String>() {
        s.clone()
    } else {
        "<non-string panic>".to_string()
    }
}

/// Runs `root` as the first simulated thread and returns when it has finished. Called in the forked process of a run.
pub fn run<F: FnOnce() + Send + 'static>(cfg: Config, sh: &'static mut Shared, log: bool, root: F) {
    let mut rng = Rng::new(cfg.seed);
    let strat = match rng.below(10) {
        0 => Strategy::Random(20),
        1 => Strategy::Random(100),
        2 | 3 => Strategy::Random(350),
        4 | 5 => Strategy::Random(1000),
        6 | 7 => {
            let d = rng.below(6);
            let horizon = [60u64, 300, 2000][rng.below(3)];
            Strategy::Pct { points: (0..d).map(|_| rng.below(horizon as usize) as u64).collect() }
        }
        _ => {
            let from = rng.below(400) as u64;
            let len = [20u64, 200, 3000][rng.below(3)];
            Strategy::Stall { victim: rng.below(5), from, to: from + len, p: [100, 500, 1000][rng.below(3)] }
        }
    };
    sh.entropy = mix(cfg.seed, 0x5EED);
    let main_word: &'static AtomicU32 = Box::leak(Box::new(AtomicU32::new(0)));
    let state = Box::new(State {
        threads: Vec::new(),
        cur: 0,
        rng,
        strat,
        replay: cfg.replay,
        streams: Vec::new(),
        time: 1_000_000,
        steps: 0,
        switches: 0,
        hash: 1,
        sched_hash: 1,
        fair: false,
        rr: 0,
        chaos_steps: cfg.chaos_steps,
        fair_steps: cfg.fair_steps,
        main_word,
        done: false,
        counters: Vec::new(),
        sh,
        log: if log { Some(Vec::new()) } else { None },
        prio_next_low: 1 << 30,
    });
    unsafe {
        ST = Box::into_raw(state);
    }
    spawn("root", false, root);
    let w = st().threads[0].word;
    w.store(1, Ordering::SeqCst);
    raw::futex_wake(w, 1);
    wait_word(main_word);
    finish_stats();
    st().sh.completed = 1;
    dump_log();
}
