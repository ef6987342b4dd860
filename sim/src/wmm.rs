//! What an atomic load may observe. Views follow the release/acquire rules: every location keeps its stores in
//! order, every thread knows up to which store of each location it must see, synchronisation joins views.
//! A load may return any store not older than what its thread must see. Vector clocks travel with the views and
//! serve the race detection of the instrumented map contents.
use goko::monomap::sync::{set_hooks, SimHooks};
use std::collections::HashMap;
use std::sync::atomic::Ordering;

#[derive(Clone, Default, Debug)]
pub struct View {
    locs: HashMap<usize, u32, fxhash::FxBuildHasher>,
    vc: Vec<u32>,
}

impl View {
    fn join(&mut self, o: &View) {
        for (k, v) in &o.locs {
            let e = self.locs.entry(*k).or_insert(0);
            if *e < *v {
                *e = *v;
            }
        }
        if self.vc.len() < o.vc.len() {
            self.vc.resize(o.vc.len(), 0);
        }
        for (i, v) in o.vc.iter().enumerate() {
            if self.vc[i] < *v {
                self.vc[i] = *v;
            }
        }
    }
    fn at(&self, l: usize) -> u32 {
        self.locs.get(&l).copied().unwrap_or(0)
    }
}

struct Msg {
    val: usize,
    view: View,
}

#[derive(Default)]
struct Loc {
    msgs: Vec<Msg>,
}

#[derive(Clone, Default)]
struct Thr {
    cur: View,
    /// Acquired by a later acquire fence.
    pending: View,
    /// What a release fence made releasable by relaxed stores.
    rel: View,
}

#[derive(Default)]
struct Mem {
    on: bool,
    locs: HashMap<usize, Loc, fxhash::FxBuildHasher>,
    thr: Vec<Thr>,
    sc: View,
    locks: HashMap<usize, View, fxhash::FxBuildHasher>,
    stale: usize,
}

static mut MEM: Option<Mem> = None;

fn mem() -> &'static mut Mem {
    unsafe { (*std::ptr::addr_of_mut!(MEM)).get_or_insert_with(Mem::default) }
}

fn acq(o: Ordering) -> bool {
    matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst)
}
fn rel(o: Ordering) -> bool {
    matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst)
}

impl Mem {
    fn me(&mut self) -> usize {
        let t = simcore::me();
        while self.thr.len() <= t {
            self.thr.push(Thr::default());
        }
        t
    }
    fn tick(&mut self, t: usize) {
        let vc = &mut self.thr[t].cur.vc;
        if vc.len() <= t {
            vc.resize(t + 1, 0);
        }
        vc[t] += 1;
    }
    fn loc(&mut self, id: usize, latest: usize) -> &mut Loc {
        let l = self.locs.entry(id).or_default();
        if l.msgs.is_empty() {
            l.msgs.push(Msg { val: latest, view: View::default() });
        }
        l
    }
    fn write(&mut self, id: usize, latest: usize, value: usize, o: Ordering, rmw: bool) {
        let t = self.me();
        self.tick(t);
        self.loc(id, latest);
        let ts = self.locs[&id].msgs.len() as u32;
        if rmw {
            // reads the last store: acquires it, and continues its release sequence
            let v = self.locs[&id].msgs.last().unwrap().view.clone();
            if acq(o) {
                self.thr[t].cur.join(&v);
            } else {
                self.thr[t].pending.join(&v);
            }
        }
        if o == Ordering::SeqCst {
            let sc = self.sc.clone();
            let s = sc.at(id);
            let e = self.thr[t].cur.locs.entry(id).or_insert(0);
            *e = (*e).max(s);
        }
        self.thr[t].cur.locs.insert(id, ts);
        let mut view = if rel(o) { self.thr[t].cur.clone() } else { self.thr[t].rel.clone() };
        view.locs.insert(id, ts);
        if rmw {
            let v = self.locs[&id].msgs.last().unwrap().view.clone();
            view.join(&v);
        }
        if o == Ordering::SeqCst {
            self.sc.locs.insert(id, ts);
        }
        self.locs.get_mut(&id).unwrap().msgs.push(Msg { val: value, view });
    }
}

pub struct Hooks;

impl SimHooks for Hooks {
    fn load(&self, id: usize, latest: usize, o: Ordering) -> usize {
        if !simcore::on_sim_thread() || !mem().on {
            return latest;
        }
        let m = mem();
        let t = m.me();
        m.tick(t);
        m.loc(id, latest);
        let mut low = m.thr[t].cur.at(id);
        if o == Ordering::SeqCst {
            low = low.max(m.sc.at(id));
        }
        let n = m.locs[&id].msgs.len() as u32;
        let choices = (n - low).min(4);
        let mut ts = n - 1;
        if choices > 1 && simcore::chance("stale", m.stale) {
            ts = n - 1 - (1 + simcore::decide("stale which", choices as usize - 1) as u32);
            simcore::count("fault stale load");
        }
        let v = m.locs[&id].msgs[ts as usize].view.clone();
        let val = m.locs[&id].msgs[ts as usize].val;
        let th = &mut m.thr[t];
        th.cur.locs.insert(id, ts);
        if acq(o) {
            th.cur.join(&v);
        } else {
            th.pending.join(&v);
        }
        val
    }
    fn store(&self, id: usize, latest: usize, value: usize, o: Ordering) {
        if simcore::on_sim_thread() && mem().on {
            mem().write(id, latest, value, o, false);
        }
    }
    fn rmw(&self, id: usize, latest: usize, value: usize, o: Ordering) {
        if simcore::on_sim_thread() && mem().on {
            mem().write(id, latest, value, o, true);
        }
    }
    fn fence(&self, o: Ordering) {
        if !simcore::on_sim_thread() || !mem().on {
            return;
        }
        let m = mem();
        let t = m.me();
        m.tick(t);
        if acq(o) {
            let p = m.thr[t].pending.clone();
            m.thr[t].cur.join(&p);
        }
        if o == Ordering::SeqCst {
            // orders what later loads may see, but is not by itself a happens-before edge
            let mut sc = View { locs: m.sc.locs.clone(), vc: Vec::new() };
            m.thr[t].cur.join(&sc);
            sc.locs = m.thr[t].cur.locs.clone();
            m.sc.join(&sc);
        }
        if rel(o) {
            m.thr[t].rel = m.thr[t].cur.clone();
        }
    }
    fn step(&self, what: &'static str) {
        simcore::step(what);
    }
    fn locked(&self, id: usize) {
        if simcore::on_sim_thread() && mem().on {
            let m = mem();
            let t = m.me();
            if let Some(v) = m.locks.get(&id).cloned() {
                m.thr[t].cur.join(&v);
            }
        }
    }
    fn unlocking(&self, id: usize) {
        if simcore::on_sim_thread() && mem().on {
            let m = mem();
            let t = m.me();
            m.tick(t);
            let v = m.thr[t].cur.clone();
            m.locks.insert(id, v);
        }
        simcore::step("unlock");
    }
    fn yield_now(&self) {
        simcore::yield_now("yield_now");
    }
}

static HOOKS: Hooks = Hooks;

/// Registers the hooks. `weak`: loads may be stale (per mille); otherwise sequentially consistent.
pub fn install(weak: bool, stale: usize) {
    set_hooks(&HOOKS);
    let m = mem();
    m.on = weak;
    m.stale = stale;
}

/// The view of the calling thread, to hand to a thread it creates or signals.
pub fn snapshot() -> View {
    let m = mem();
    let t = m.me();
    m.tick(t);
    m.thr[t].cur.clone()
}
pub fn adopt(v: &View) {
    let m = mem();
    let t = m.me();
    m.thr[t].cur.join(v);
}
/// The calling thread's clock: (thread, tick).
pub fn stamp() -> (usize, u32) {
    let m = mem();
    let t = m.me();
    m.tick(t);
    (t, m.thr[t].cur.vc[t])
}
/// Does what happened at `s` happen before the calling thread's present?
pub fn happened_before(s: (usize, u32)) -> bool {
    let m = mem();
    let t = m.me();
    s.0 == t || m.thr[t].cur.vc.get(s.0).copied().unwrap_or(0) >= s.1
}

/// A simulated thread that starts with the creator's view.
pub fn spawn<F: FnOnce() + Send + 'static>(name: &str, f: F) -> usize {
    let v = snapshot();
    simcore::spawn(name, false, move || {
        adopt(&v);
        f()
    })
}
/// Waits for a thread and takes over what it knew.
pub fn join(id: usize) {
    simcore::join(id);
    let m = mem();
    if let Some(t) = m.thr.get(id) {
        let v = t.cur.clone();
        adopt(&v);
    }
}
