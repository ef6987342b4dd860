//! The map under the tree's layers: one writer, many readers, under weak memory and any schedule (C01, C02, C03).
use crate::wmm;
use goko::monomap::{MonoOptions, MonoReadHandle, MonoReadHandleFactory, MonoWriteHandle};
use simcore::{chance, count, decide, fail, flip, observe_state};
use std::collections::{BTreeMap, HashMap};
use std::hash::{BuildHasher, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};

type Stamp = (usize, u32);

#[derive(Default)]
struct Cell {
    dead: bool,
    write: Option<Stamp>,
    reads: Vec<Stamp>,
    active: Vec<usize>,
}

impl Cell {
    fn read(&mut self, what: &str) {
        if self.dead {
            fail("use-after-free", &format!("a reader sees {} that was already freed", what));
        }
        if let Some(w) = self.write {
            if !wmm::happened_before(w) {
                fail("data-race", &format!("a reader reads {} whose last modification by thread {} is not ordered before the read", what, w.0));
            }
        }
        let s = wmm::stamp();
        self.reads.retain(|r| r.0 != s.0);
        self.reads.push(s);
    }
    fn write(&mut self, what: &str, free: bool) {
        let me = simcore::me();
        if self.dead {
            fail("use-after-free", &format!("{} modified or freed after it was freed", what));
        }
        if self.active.iter().any(|t| *t != me) {
            fail("changed-under-reader", &format!("{} is {} while thread {:?} is inside a read of it", what, if free { "freed" } else { "modified" }, self.active));
        }
        for r in &self.reads {
            if !wmm::happened_before(*r) {
                fail("data-race", &format!("{} is {} without being ordered after a read of it by thread {}", what, if free { "freed" } else { "modified" }, r.0));
            }
        }
        self.write = Some(wmm::stamp());
        self.reads.clear();
        if free {
            self.dead = true;
        }
    }
}

#[derive(Default)]
struct Registry {
    objs: HashMap<u32, Cell, fxhash::FxBuildHasher>,
    maps: HashMap<u32, Cell, fxhash::FxBuildHasher>,
    next: u32,
    writing: Vec<bool>,
    last_map: Vec<u32>,
}
static mut REG: Option<Registry> = None;
fn reg() -> &'static mut Registry {
    unsafe { (*std::ptr::addr_of_mut!(REG)).get_or_insert_with(Registry::default) }
}
fn writing(on: bool) {
    let me = simcore::me();
    let r = reg();
    if r.writing.len() <= me {
        r.writing.resize(me + 1, false);
    }
    r.writing[me] = on;
}
fn is_writing() -> bool {
    reg().writing.get(simcore::me()).copied().unwrap_or(false)
}

/// A value of the map.
#[derive(Debug)]
pub struct Val {
    oid: u32,
    x: u64,
    y: u64,
}
impl Val {
    fn new(x: u64) -> Val {
        let r = reg();
        r.next += 1;
        let oid = r.next;
        let c = Cell { write: Some(wmm::stamp()), ..Cell::default() };
        r.objs.insert(oid, c);
        Val { oid, x, y: !x }
    }
    fn cell(&self) -> &'static mut Cell {
        match reg().objs.get_mut(&self.oid) {
            Some(c) => c,
            None => fail("use-after-free", &format!("a value's memory no longer holds a value (tag {:#x})", self.oid)),
        }
    }
    fn get(&self) -> u64 {
        self.cell().read("a value");
        let x = self.x;
        if self.y != !x {
            fail("torn", &format!("a reader sees a half modified value ({:#x}, {:#x})", x, self.y));
        }
        x
    }
    fn update(&mut self, c: u64) {
        self.cell().write("a value", false);
        self.x = step_fn(self.x, c);
        simcore::step("updating");
        self.y = !self.x;
        self.cell().write("a value", false);
    }
}
impl Clone for Val {
    fn clone(&self) -> Val {
        Val::new(self.get())
    }
}
impl Drop for Val {
    fn drop(&mut self) {
        self.cell().write("a value", true);
        self.x = 0xDEAD;
    }
}
fn step_fn(x: u64, c: u64) -> u64 {
    x.wrapping_mul(31).wrapping_add(c)
}

/// Hashes keys and tells which copy of the map is being accessed.
pub struct Track {
    inst: u32,
}
impl Track {
    fn new() -> Track {
        let r = reg();
        r.next += 1;
        let inst = r.next;
        r.maps.insert(inst, Cell::default());
        Track { inst }
    }
    fn cell(&self) -> &'static mut Cell {
        match reg().maps.get_mut(&self.inst) {
            Some(c) => c,
            None => fail("use-after-free", &format!("a map's memory no longer holds a map (tag {:#x})", self.inst)),
        }
    }
}
impl Clone for Track {
    fn clone(&self) -> Track {
        let _ = self.cell();
        Track::new()
    }
}
impl Drop for Track {
    fn drop(&mut self) {
        self.cell().write("a copy of the map", true);
    }
}
pub struct H(u64);
impl Hasher for H {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0.rotate_left(5) ^ *x as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
        }
    }
}
impl BuildHasher for Track {
    type Hasher = H;
    fn build_hasher(&self) -> H {
        let me = simcore::me();
        if is_writing() {
            self.cell().write("a copy of the map", false);
        } else {
            self.cell().read("a copy of the map");
            let r = reg();
            if r.last_map.len() <= me {
                r.last_map.resize(me + 1, 0);
            }
            r.last_map[me] = self.inst;
        }
        H(17)
    }
}

type R = MonoReadHandle<u8, Val, Val, Track>;
type F = MonoReadHandleFactory<u8, Val, Val, Track>;
type W = MonoWriteHandle<u8, Val, Val, Track>;

#[derive(Clone, PartialEq, Debug, Default)]
struct Version {
    ready: bool,
    gone: bool,
    meta: u64,
    map: BTreeMap<u8, u64>,
}

#[derive(Default)]
struct Model {
    versions: Vec<Version>,
    /// Versions up to this index have been published completely.
    done: usize,
    reads: u64,
}
static mut MODEL: Option<Model> = None;
fn model() -> &'static mut Model {
    unsafe { (*std::ptr::addr_of_mut!(MODEL)).get_or_insert_with(Model::default) }
}

/// Read-side bookkeeping around an object the closure holds.
struct Inside(u32, bool);
impl Inside {
    fn obj(v: &Val) -> Inside {
        v.cell().active.push(simcore::me());
        Inside(v.oid, false)
    }
    fn map() -> Inside {
        let inst = reg().last_map.get(simcore::me()).copied().unwrap_or(0);
        if let Some(c) = reg().maps.get_mut(&inst) {
            c.active.push(simcore::me());
        }
        Inside(inst, true)
    }
}
impl Drop for Inside {
    fn drop(&mut self) {
        let r = reg();
        let c = if self.1 { r.maps.get_mut(&self.0) } else { r.objs.get_mut(&self.0) };
        if let Some(c) = c {
            let me = simcore::me();
            if let Some(i) = c.active.iter().position(|t| *t == me) {
                c.active.remove(i);
            }
        }
    }
}

#[derive(Clone, Copy, Default)]
pub struct Cfg {
    nested: bool,
    panics: bool,
    churn: bool,
    keys: usize,
    linger: usize,
    /// bound on the scheduler steps a read itself may take, 0: not checked
    bound: u64,
}

/// What a read saw, to be explained by exactly one version.
enum Saw {
    Get(u8, Option<u64>),
    MetaGet(u8, Option<(Option<u64>, u64)>),
    Meta(Option<u64>),
    Len(usize),
    Empty(bool),
    Contains(u8, bool),
    All(BTreeMap<u8, u64>, usize),
    Destroyed(bool),
}

fn explains(v: &Version, s: &Saw) -> bool {
    let vis = v.ready && !v.gone;
    match s {
        Saw::Get(k, r) => *r == if vis { v.map.get(k).copied() } else { None },
        Saw::MetaGet(k, r) => *r == if vis { Some((v.map.get(k).copied(), v.meta)) } else { None },
        Saw::Meta(m) => *m == if v.gone { None } else { Some(v.meta) },
        Saw::Len(n) => *n == if v.gone { 0 } else { v.map.len() },
        Saw::Empty(e) => *e == (v.gone || v.map.is_empty()),
        Saw::Contains(k, c) => *c == (!v.gone && v.map.contains_key(k)),
        Saw::All(m, n) => {
            if v.gone {
                m.is_empty() && *n == 0
            } else {
                *m == v.map && *n == v.map.len()
            }
        }
        Saw::Destroyed(d) => *d == v.gone,
    }
}

fn show(s: &Saw) -> String {
    match s {
        Saw::Get(k, r) => format!("get({}) = {:?}", k, r),
        Saw::MetaGet(k, r) => format!("meta_get({}) = {:?}", k, r),
        Saw::Meta(m) => format!("meta = {:?}", m),
        Saw::Len(n) => format!("len = {}", n),
        Saw::Empty(e) => format!("is_empty = {}", e),
        Saw::Contains(k, c) => format!("contains({}) = {}", k, c),
        Saw::All(m, n) => format!("iteration = {:?} ({} entries)", m, n),
        Saw::Destroyed(d) => format!("is_destroyed = {}", d),
    }
}

/// Checks one read that began when `lo` was the oldest version allowed; returns the new lower bound for this reader.
fn judge(saw: Saw, lo: usize) -> usize {
    let m = model();
    m.reads += 1;
    let hi = m.versions.len() - 1;
    count("reads checked");
    for i in lo..=hi {
        if explains(&m.versions[i], &saw) {
            observe_state(i as u64);
            return i;
        }
    }
    let other = (0..lo).rev().find(|i| explains(&m.versions[*i], &saw));
    fail(
        match other {
            Some(_) => "stale-read",
            None => "wrong-read",
        },
        &format!(
            "{} is not what any version from {} to {} holds{}; versions: {:?}",
            show(&saw),
            lo,
            hi,
            match other {
                Some(i) => format!(" (version {} does, but it was superseded before the read began)", i),
                None => String::new(),
            },
            &m.versions[lo.saturating_sub(2)..=hi]
        ),
    )
}

fn linger(cfg: &Cfg) {
    let n = if cfg.linger == 0 { 0 } else { decide("linger", cfg.linger) };
    for _ in 0..n {
        simcore::step("inside read");
    }
}

struct Reader {
    h: R,
    seen: usize,
    steps: u64,
}

impl Reader {
    fn new(h: R) -> Reader {
        Reader { h, seen: 0, steps: 0 }
    }
    fn lo(&self) -> usize {
        self.seen.max(model().done)
    }
    fn inside(&mut self, cfg: &Cfg, depth: u32, v: &Val, keyed: bool) -> u64 {
        // the closure of a read: look, wait, perhaps read again through the same handle, look again
        let before = simcore::my_steps();
        // a lookup by key told the registry which copy it is in; an iteration does not
        let _m = if keyed { Some(Inside::map()) } else { None };
        let _o = Inside::obj(v);
        let a = v.get();
        linger(cfg);
        if cfg.nested && depth < 2 && flip("nest", 400) {
            count("read within a read on one handle");
            self.read(cfg, depth + 1);
        }
        if cfg.panics && chance("panic", 150) {
            count("fault panic in a read's closure");
            std::panic::panic_any("closure");
        }
        let b = v.get();
        if a != b {
            fail("changed-under-reader", &format!("a value changed from {} to {} during one read", a, b));
        }
        self.steps += simcore::my_steps() - before;
        b
    }
    fn read(&mut self, cfg: &Cfg, depth: u32) {
        let lo = self.lo();
        let k = decide("key", cfg.keys) as u8;
        let kind = decide("read", 8);
        let outer_steps = self.steps;
        self.steps = 0;
        let start = simcore::my_steps();
        let me = self as *mut Reader;
        let this = unsafe { &mut *me };
        let saw = match kind {
            0 => Saw::Get(k, self.h.get_and(&k, |v| this.inside(cfg, depth, v, true))),
            1 => Saw::MetaGet(k, self.h.meta_get_and(&k, |v| this.inside(cfg, depth, v, true)).map(|(v, m)| (v, m.get()))),
            2 => Saw::Meta(self.h.meta().map(|m| m.get())),
            3 => Saw::Len(self.h.len()),
            4 => Saw::Empty(self.h.is_empty()),
            5 => Saw::Contains(k, self.h.contains_key(&k)),
            6 => {
                let mut all = BTreeMap::new();
                let mut n = 0;
                self.h.for_each(|k, v| {
                    n += 1;
                    all.insert(*k, this.inside(cfg, depth, v, false));
                });
                Saw::All(all, n)
            }
            _ => {
                if flip("map_into", 600) {
                    let l: Vec<(u8, u64)> = self.h.map_into(|k, v| (*k, this.inside(cfg, depth, v, false)));
                    let n = l.len();
                    Saw::All(l.into_iter().collect(), n)
                } else {
                    Saw::Destroyed(self.h.is_destroyed())
                }
            }
        };
        let own = simcore::my_steps() - start - self.steps;
        if cfg.bound > 0 && own > cfg.bound {
            fail("reader-waits", &format!("a read took {} scheduler steps of its own", own));
        }
        self.steps = outer_steps;
        let i = judge(saw, lo);
        self.seen = self.seen.max(i);
    }
    fn read_caught(&mut self, cfg: &Cfg) {
        let r = catch_unwind(AssertUnwindSafe(|| self.read(cfg, 0)));
        if let Err(e) = r {
            if e.downcast_ref::<&'static str>() != Some(&"closure") {
                std::panic::resume_unwind(e);
            }
            self.steps = 0;
        }
    }
}

fn publish(w: &mut W, cur: &mut Version) {
    cur.ready = true;
    model().versions.push(cur.clone());
    writing(true);
    w.refresh();
    writing(false);
    model().done = model().versions.len() - 1;
    count("publishes");
}

fn drop_writer(w: W, cur: &Version, pending: bool) {
    // dropping publishes what is pending, then everything is gone
    if pending {
        let mut v = cur.clone();
        v.ready = true;
        model().versions.push(v);
    }
    let mut v = cur.clone();
    v.gone = true;
    model().versions.push(v);
    writing(true);
    drop(w);
    writing(false);
    model().done = model().versions.len() - 1;
    count("writer dropped during the run");
}

fn writer(mut w: W, mut cur: Version, ops: usize, cfg: Cfg, drop_at_end: bool) {
    let mut published = false;
    let mut pending = 0;
    for _ in 0..ops {
        let k = decide("key", cfg.keys) as u8;
        let op = decide("op", 12);
        writing(true);
        match op {
            0..=2 => {
                let x = decide("val", 50) as u64;
                w.insert(k, Val::new(x));
                cur.map.insert(k, x);
                pending += 1;
            }
            3 | 4 => {
                let c = decide("val", 50) as u64;
                w.update(k, move |v: &mut Val| v.update(c));
                if let Some(v) = cur.map.get_mut(&k) {
                    *v = step_fn(*v, c);
                }
                pending += 1;
            }
            5 => {
                w.remove(k);
                cur.map.remove(&k);
                pending += 1;
            }
            6 => {
                if flip("purge", 300) {
                    w.purge();
                    cur.map.clear();
                    pending += 1;
                }
            }
            7 => {
                let x = decide("val", 50) as u64;
                drop(w.set_meta(Val::new(x)));
                cur.meta = x;
            }
            8 => {
                writing(false);
                // the writer reading through itself sees the published state
                let lo = model().done;
                judge(Saw::Get(k, w.get_and(&k, |v| v.get())), lo);
            }
            9 => {
                if published && pending > 0 {
                    cur.ready = true;
                    model().versions.push(cur.clone());
                    w.flush();
                    model().done = model().versions.len() - 1;
                    pending = 0;
                }
            }
            _ => {
                writing(false);
                publish(&mut w, &mut cur);
                published = true;
                pending = 0;
            }
        }
        writing(false);
        simcore::step("writer");
    }
    if drop_at_end {
        // dropping may still publish what is pending, metadata included; before the first publish it does not
        drop_writer(w, &cur, published);
    } else {
        if !published || pending > 0 {
            publish(&mut w, &mut cur);
        }
        std::mem::forget(w);
    }
}

fn setup(weak: bool, stale: usize) -> (R, W, Version) {
    wmm::install(true, if weak { stale } else { 0 });
    let meta = 7;
    let (r, w) = MonoOptions::default().with_hasher(Track::new()).with_meta(Val::new(meta)).construct::<u8, Val>();
    let v = Version { meta, ..Version::default() };
    model().versions.push(v.clone());
    (r, w, v)
}

fn reader_thread(h: R, factory: F, n: usize, cfg: Cfg) {
    let mut rs = vec![Reader::new(h)];
    for _ in 0..n {
        if cfg.churn && flip("churn", 300) {
            match decide("churn op", 3) {
                0 => {
                    let i = decide("which", rs.len());
                    let h = rs[i].h.clone();
                    count("reader created during the run");
                    rs.push(Reader::new(h));
                }
                1 => {
                    count("reader created during the run");
                    rs.push(Reader::new(factory.handle()));
                }
                _ => {
                    if rs.len() > 1 {
                        let i = decide("which", rs.len());
                        drop(rs.swap_remove(i));
                        count("reader dropped during the run");
                    }
                }
            }
            continue;
        }
        let i = decide("which", rs.len());
        rs[i].read_caught(&cfg);
        simcore::step("reader");
    }
}

fn draw_cfg(nested: bool) -> Cfg {
    Cfg {
        nested: nested && flip("cfg", 500),
        panics: flip("cfg", 300),
        churn: flip("cfg", 400),
        keys: 1 + decide("cfg", 4),
        linger: [0, 3, 12][decide("cfg", 3)],
        bound: 0,
    }
}

fn go(nested: bool, drop_writer: bool) {
    let weak = flip("cfg", 600);
    let stale = [50, 250, 600][decide("cfg", 3)];
    let (r, w, v) = setup(weak, stale);
    let cfg = draw_cfg(nested);
    let readers = 1 + decide("cfg", 3);
    let ops = 2 + decide("cfg", 24);
    let f = r.factory();
    let mut ids = Vec::new();
    for i in 0..readers {
        let h = r.clone();
        let f = f.clone();
        let n = 1 + decide("cfg", 14);
        ids.push(wmm::spawn(&format!("reader-{}", i), move || reader_thread(h, f, n, cfg)));
    }
    ids.push(wmm::spawn("writer", move || writer(w, v, ops, cfg, drop_writer)));
    for i in ids {
        wmm::join(i);
    }
    // afterwards every reader sees exactly the last version
    let mut last = Reader::new(r);
    let quiet = Cfg { keys: cfg.keys, ..Cfg::default() };
    last.seen = model().done;
    for _ in 0..6 {
        last.read(&quiet, 0);
    }
    simcore::note(&format!("weak={} stale={} readers={} ops={} versions={} reads={}", weak, stale, readers, ops, model().versions.len(), model().reads));
}

pub fn mixed() {
    let d = flip("cfg", 350);
    go(true, d)
}
pub fn teardown() {
    go(true, true)
}
pub fn sequential() {
    // one thread: the map against the model, many operations
    let (r, w, v) = setup(false, 0);
    let cfg = Cfg { keys: 1 + decide("cfg", 4), ..Cfg::default() };
    let ops = 10 + decide("cfg", 60);
    let f = r.factory();
    let d = flip("cfg", 500);
    let h = r.clone();
    let rd = wmm::spawn("reader", move || reader_thread(h, f, 30, cfg));
    writer(w, v, ops, cfg, d);
    wmm::join(rd);
    let mut last = Reader::new(r);
    last.seen = model().done;
    for _ in 0..8 {
        last.read(&cfg, 0);
    }
}

/// The writer is stalled for good at an arbitrary point: reads still finish, in a bounded number of own steps.
pub fn stalled_writer() {
    let weak = flip("cfg", 300);
    let (r, w, v) = setup(weak, 200);
    let mut cfg = draw_cfg(true);
    cfg.churn = false;
    cfg.bound = 40;
    let n = 1 + decide("cfg", 3);
    let ops = 2 + decide("cfg", 12);
    let d = flip("cfg", 300);
    let mut rs: Vec<R> = (0..n).map(|_| r.clone()).collect();
    let f = r.factory();
    let wid = wmm::spawn("writer", move || writer(w, v, ops, cfg, d));
    let at = decide("stall at", 160);
    for _ in 0..at {
        simcore::step("before the stall");
        if simcore::finished(wid) {
            break;
        }
    }
    simcore::freeze(wid, true);
    count("fault writer stalled");
    let mut ids = Vec::new();
    while let Some(h) = rs.pop() {
        let f = f.clone();
        ids.push(wmm::spawn("reader", move || reader_thread(h, f, 8, cfg)));
    }
    for i in ids {
        wmm::join(i);
    }
    // released, it must finish: nobody is reading
    simcore::freeze(wid, false);
    wmm::join(wid);
}

/// Readers that read all the time, and a writer that only ever gets to run while all of them are inside a read: as each
/// read ends after a while, publishing and teardown still finish.
pub fn unlucky_writer() {
    let (r, mut w, _) = setup(false, 0);
    w.insert(0, Val::new(1));
    w.refresh();
    let n = 1 + decide("cfg", 3);
    let publishes = 1 + decide("cfg", 5);
    let dropped = flip("cfg", 500);
    let go = simcore::decide("cfg", 4);
    let outside = std::sync::Arc::new(std::sync::atomic::AtomicUsize::new(n));
    let hs: Vec<R> = (0..n).map(|_| r.clone()).collect();
    drop(r);
    let out = outside.clone();
    let wid = wmm::spawn("writer", move || {
        while out.load(std::sync::atomic::Ordering::SeqCst) != 0 {
            simcore::yield_now("before the first publish");
        }
        for i in 0..publishes {
            for k in 0..go {
                w.insert(k as u8, Val::new(i as u64));
            }
            w.refresh();
            count("publishes between reads");
        }
        if dropped {
            drop(w);
            count("teardowns between reads");
        } else {
            std::mem::forget(w);
        }
    });
    let ids: Vec<usize> = hs
        .into_iter()
        .map(|h| {
            let outside = outside.clone();
            wmm::spawn("busy reader", move || {
                let enter = || {
                    if outside.fetch_sub(1, std::sync::atomic::Ordering::SeqCst) == 1 {
                        simcore::freeze(wid, false);
                    }
                };
                while !simcore::finished(wid) {
                    let some = h.get_and(&0, |_| {
                        enter();
                        let until = simcore::steps_of(wid) + 1 + decide("held for", 30) as u64;
                        while simcore::steps_of(wid) < until && !simcore::finished(wid) {
                            if simcore::steps_of(wid) > 4_000 {
                                fail("starved", &format!("{} steps of the writer, all readers went through many reads meanwhile, it is still at it", simcore::steps_of(wid)));
                            }
                            simcore::yield_now("inside a read");
                        }
                        simcore::freeze(wid, true);
                        outside.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
                    });
                    if some.is_none() {
                        enter();
                        break;
                    }
                }
            })
        })
        .collect();
    for i in ids {
        wmm::join(i);
    }
    wmm::join(wid);
}

/// Readers that are not inside a read are stalled for good: publishing and teardown still finish.
pub fn stalled_readers() {
    let weak = flip("cfg", 300);
    let (r, w, v) = setup(weak, 200);
    let mut cfg = draw_cfg(true);
    cfg.churn = false;
    let n = 1 + decide("cfg", 3);
    let d = flip("cfg", 500);
    let f = r.factory();
    let mut ids = Vec::new();
    for _ in 0..n {
        let h = r.clone();
        let reads = decide("cfg", 4);
        ids.push(wmm::spawn("reader", move || {
            let mut rd = Reader::new(h);
            for _ in 0..reads {
                rd.read_caught(&cfg);
            }
            count("fault idle reader stalled");
            // stays outside any read for good
            simcore::freeze(simcore::me(), true);
            simcore::step("stalled reader");
        }));
    }
    // one more keeps reading all the time
    let busy = r.clone();
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let dn = done.clone();
    let bid = wmm::spawn("busy reader", move || {
        let mut rd = Reader::new(busy);
        while !dn.load(std::sync::atomic::Ordering::SeqCst) {
            rd.read_caught(&cfg);
        }
    });
    let ops = 4 + decide("cfg", 20);
    let wid = wmm::spawn("writer", move || writer(w, v, ops, cfg, d));
    let _ = f;
    wmm::join(wid);
    done.store(true, std::sync::atomic::Ordering::SeqCst);
    wmm::join(bid);
}
