//! Saving and loading trees on the simulated disk (C12, C13, C14).
use crate::cloud::{self, dist, Params, Shape, SimCloud};
use crate::disk::{disk, Faults};
use crate::tree::{build, brief, compare_as, one_query, setup, snapshot, workers, writer_action, Addr, Reader, Snap, Writer};
use goko::utils::{load_tree, save_tree};
use goko::GokoResult;
use pointcloud::PointCloud;
use simcore::{count, decide, fail, flip};
use std::collections::BTreeSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

const DIR: &str = "/sim/data";
const PATH: &str = "/sim/data/my.tree";
const BESIDE: &str = "/sim/data/my.other";

fn save(w: &Writer, path: &str, when: &str) -> GokoResult<()> {
    match catch_unwind(AssertUnwindSafe(|| save_tree(path, w))) {
        Ok(r) => r,
        Err(e) => {
            if disk().dead {
                // the machine has stopped; nothing after that matters
                return Ok(());
            }
            fail("panic", &format!("save panicked ({}, {} calls made to fail, last {}): {}", when, disk().failed, disk().last_failed, simcore::panic_text(&e)))
        }
    }
}

fn load(c: &Arc<SimCloud>, path: &str, when: &str) -> GokoResult<Writer> {
    match catch_unwind(AssertUnwindSafe(|| load_tree(path, Arc::clone(c)))) {
        Ok(r) => r,
        Err(e) => fail("panic", &format!("load panicked ({}): {}", when, simcore::panic_text(&e))),
    }
}

/// Everything of a tree that a save has to keep.
struct Whole {
    s: Snap,
    layers: usize,
    params: (u32, usize, i32, bool, bool),
    finals: Vec<Option<Addr>>,
}
fn whole(r: &Reader, c: &SimCloud) -> Whole {
    let p = r.parameters();
    Whole {
        s: snapshot(r),
        layers: r.len(),
        params: (p.scale_base.to_bits(), p.leaf_cutoff, p.min_res_index, p.use_singletons, matches!(p.partition_type, goko::PartitionType::First)),
        finals: c.quietly(|| c.idx.iter().map(|i| r.known_path(*i).ok().and_then(|p| p.last().map(|x| x.1))).collect()),
    }
}
fn differs(a: &Whole, b: &Whole) -> Option<String> {
    if a.s.root != b.s.root {
        return Some(format!("root {:?} became {:?}", a.s.root, b.s.root));
    }
    if a.params != b.params {
        return Some(format!("parameters {:?} became {:?}", a.params, b.params));
    }
    if a.layers != b.layers {
        return Some(format!("{} layers became {}", a.layers, b.layers));
    }
    for k in a.s.nodes.keys().chain(b.s.nodes.keys()) {
        if let Some(d) = compare_as(a.s.nodes.get(k), b.s.nodes.get(k)) {
            return Some(format!("node {:?}: {}", k, d));
        }
    }
    if a.finals != b.finals {
        return Some("the final addresses differ".to_string());
    }
    None
}

fn data_set() -> Arc<SimCloud> {
    Arc::new(cloud::make(Shape { max: 40, big: 10, wide: 0, min: 1 }))
}

// ---------------------------------------------------------------- C12

pub fn c12() {
    setup();
    let c = data_set();
    let p = Params::draw();
    let mut w = build(&c, &p);
    let mut at = vec![];
    for _ in 0..decide("before saving", 3) {
        writer_action(&mut w, &mut at);
    }
    let before = whole(&w.reader(), &c);
    disk().mkdirs(DIR);
    disk().faults.benign = flip("rough transfers", 600);
    let readers: Vec<usize> = (0..decide("readers", 2))
        .map(|i| {
            let r = w.reader();
            let mut s = snapshot(&r);
            s.check_structure(&c.idx);
            let (c, p) = (Arc::clone(&c), p.clone());
            simcore::spawn(&format!("query{}", i), false, move || {
                for _ in 0..3 {
                    if let Err(e) = one_query(&r, &s, &c, &p, &[0, 1, 2, 3], false) {
                        fail("query-failed", &format!("a query during a save failed: {}", e));
                    }
                }
            })
        })
        .collect();
    let rounds = 1 + flip("save again", 300) as usize;
    let mut prev = w;
    let mut older = vec![];
    for round in 0..rounds {
        if let Err(e) = save(&prev, PATH, "nothing fails") {
            fail("save-failed", &format!("nothing failed, but save returned {}", e));
        }
        if let Some(d) = differs(&before, &whole(&prev.reader(), &c)) {
            fail("save-changed", &format!("saving changed the tree: {}", d));
        }
        workers();
        let l = match load(&c, PATH, "an intact file") {
            Ok(l) => l,
            Err(e) => fail("load-failed", &format!("nothing failed, but load returned {}", e)),
        };
        let after = whole(&l.reader(), &c);
        if let Some(d) = differs(&before, &after) {
            fail("round-trip", &format!("round {}: {}", round, d));
        }
        let r = l.reader();
        let mut s = snapshot(&r);
        s.check_structure(&c.idx);
        if r.node_count() != s.nodes.len() {
            fail("round-trip", "the node count of the loaded tree is wrong");
        }
        for _ in 0..4 {
            if let Err(e) = one_query(&r, &s, &c, &p, &[0, 1, 2, 3], false) {
                fail("query-failed", &format!("a query on the loaded tree failed: {}", e));
            }
        }
        // the same question gets the same answer
        let q = cloud::query(&c);
        let (a, b) = (prev.reader(), l.reader());
        let d = |v: Vec<(f32, usize)>| v.into_iter().map(|x| x.0.to_bits()).collect::<Vec<_>>();
        let k = 1 + decide("k any", c.n());
        if a.path(&&q).unwrap() != b.path(&&q).unwrap() || d(a.knn(&&q, k).unwrap()) != d(b.knn(&&q, k).unwrap()) || d(a.routing_knn(&&q, k).unwrap()) != d(b.routing_knn(&&q, k).unwrap()) {
            fail("round-trip", "the loaded tree answers differently");
        }
        brief(&s);
        // the loaded tree is a writer like any other
        let mut l = l;
        if flip("use the loaded tree", 500) {
            let mut at = vec![];
            for _ in 0..2 {
                writer_action(&mut l, &mut at);
            }
            if let Some(d) = differs(&before, &whole(&l.reader(), &c)) {
                fail("round-trip", &format!("using the loaded tree changed it: {}", d));
            }
            let r = l.reader();
            for k in &at {
                crate::tree::plug::check_all(&r, &s, &c, *k, "attached to the loaded tree");
            }
        }
        older.push(std::mem::replace(&mut prev, l));
    }
    for t in readers {
        simcore::join(t);
    }
    if disk().open_fds() != 0 {
        fail("leak", &format!("{} files are still open", disk().open_fds()));
    }
}

// ---------------------------------------------------------------- C13

/// Loads what is at the path now and says which of the trees it is.
fn which(c: &Arc<SimCloud>, old: Option<&Whole>, new: &Whole, when: &str) -> &'static str {
    which_at(PATH, c, old, new, when)
}
fn which_at(path: &str, c: &Arc<SimCloud>, old: Option<&Whole>, new: &Whole, when: &str) -> &'static str {
    let keep = std::mem::take(&mut disk().faults);
    let r = match disk().get(path) {
        None => {
            if old.is_some() {
                fail("lost", &format!("{}: the file is gone", when));
            }
            "none"
        }
        Some(bytes) => match load(c, path, when) {
            Err(e) => fail("corrupt", &format!("{}: the file of {} bytes does not load: {}", when, bytes.len(), e)),
            Ok(w) => {
                let t = whole(&w.reader(), c);
                if differs(new, &t).is_none() {
                    "new"
                } else if old.map_or(false, |o| differs(o, &t).is_none()) {
                    "old"
                } else {
                    fail("corrupt", &format!("{}: the file holds neither the previous nor the new tree: {}", when, differs(new, &t).unwrap()))
                }
            }
        },
    };
    disk().faults = keep;
    r
}

pub fn c13() {
    setup();
    let c = Arc::new(cloud::make(Shape { max: 30, big: 10, wide: 0, min: 1 }));
    let p = Params::draw();
    let w = build(&c, &p);
    let new = whole(&w.reader(), &c);
    disk().mkdirs(DIR);
    let old = if flip("no previous file", 200) {
        None
    } else {
        let w = build(&c, &Params::draw());
        if let Err(e) = save(&w, PATH, "nothing fails") {
            fail("save-failed", &format!("nothing failed, but save returned {}", e));
        }
        disk().settle();
        Some(whole(&w.reader(), &c))
    };
    // how many calls a save makes
    let calls = {
        let n = disk().ops;
        let room = new.s.nodes.len() * 30 + c.n() * 12;
        (if n == 0 { 12 } else { n / 1 }, room)
    };
    let d = disk();
    d.ops = 0;
    d.failed = 0;
    let mut f = Faults { benign: flip("rough transfers", 300), ..Default::default() };
    let span = calls.0.min(3000) as usize + 4;
    match decide("save fault", 6) {
        0 => f.crash_at = Some(1 + decide("crash at", span) as u64),
        1 => f.crash_at = Some(1 + decide("crash at", span) as u64),
        2 => f.fail_at = Some(1 + decide("fail at", span) as u64),
        3 => f.errors = [10, 60, 300][decide("error rate", 3)],
        4 => f.room = Some(decide("room", calls.1.min(60_000))),
        _ => {}
    }
    let hard = f.errors > 0 || f.fail_at.is_some() || f.room.is_some();
    simcore::note(&format!("{:?}", f));
    d.faults = f;
    // another tree is saved to another file of the directory at the same time
    let mut beside = None;
    if flip("save beside", 150) {
        let keep = std::mem::take(&mut disk().faults);
        let w2 = build(&c, &Params::draw());
        disk().faults = keep;
        let whole2 = whole(&w2.reader(), &c);
        let done = Arc::new(std::sync::atomic::AtomicUsize::new(0));
        let d2 = Arc::clone(&done);
        let id = simcore::spawn("saver", false, move || {
            let ok = save(&w2, BESIDE, "faults").is_ok();
            d2.store(1 + ok as usize, std::sync::atomic::Ordering::SeqCst);
        });
        beside = Some((whole2, done, id));
        count("saves at the same time");
    }
    let r = save(&w, PATH, "faults");
    if let Some((_, _, id)) = &beside {
        simcore::join(*id);
    }
    let d = disk();
    let (dead, failed) = (d.dead, d.failed);
    // where it was cut off, and what that left on disk
    let left = d.get(PATH).map_or(0, |b| b.len()) as u64;
    simcore::observe_state((d.ops as u64) << 40 ^ left << 8 ^ (failed as u64) << 2 ^ (dead as u64) << 1 ^ r.is_ok() as u64);
    d.faults = Faults::default();
    if let Some((new2, done, _)) = &beside {
        let ok = done.load(std::sync::atomic::Ordering::SeqCst) == 2;
        if !dead && which_at(BESIDE, &c, None, new2, "beside the other file") != "new" && ok {
            fail("lost", "a save at the same time as another one succeeded but left no file");
        }
    }
    if dead {
        let power = flip("power failure", 700);
        d.restart(power);
        let got = which(&c, old.as_ref(), &new, if power { "after a power failure during a save" } else { "after a crash during a save" });
        count(match got {
            "new" => "crashes that left the new tree",
            "old" => "crashes that left the previous tree",
            _ => "crashes that left no file",
        });
        simcore::note(got);
    } else {
        match &r {
            Ok(()) => {
                if which(&c, old.as_ref(), &new, "after a successful save") != "new" {
                    fail("lost", &format!("save succeeded ({} calls failed) but the file still holds the previous tree", failed));
                }
                if flip("power failure", 600) {
                    disk().restart(true);
                    count("power failures after a successful save");
                    if which(&c, old.as_ref(), &new, "after a successful save and a power failure") != "new" {
                        fail("lost", "save succeeded, but after a power failure the new tree was gone");
                    }
                }
                count("saves that succeeded");
            }
            Err(e) => {
                if !hard || failed == 0 {
                    fail("save-failed", &format!("nothing failed, but save returned {}", e));
                }
                which(&c, old.as_ref(), &new, "after a failed save");
                if flip("power failure", 400) {
                    disk().restart(true);
                    which(&c, old.as_ref(), &new, "after a failed save and a power failure");
                }
                count("saves that returned an error");
            }
        }
    }
    if disk().open_fds() != 0 {
        fail("leak", &format!("{} files are still open", disk().open_fds()));
    }
    // whatever was left behind does not stand in the way of the next save, of a small tree
    if flip("small tree next", 300) {
        let w = build(&c, &Params { leaf_cutoff: 100_000, ..p.clone() });
        let small = whole(&w.reader(), &c);
        if let Err(e) = save(&w, PATH, "nothing fails") {
            fail("save-failed", &format!("nothing failed, but the next save returned {}", e));
        }
        if which(&c, None, &small, "after the next save, of a small tree") != "new" {
            fail("lost", "the next save, of a small tree, had no effect");
        }
    }
    if let Err(e) = save(&w, PATH, "nothing fails") {
        fail("save-failed", &format!("nothing failed, but the next save returned {}", e));
    }
    if which(&c, old.as_ref(), &new, "after the next save") != "new" {
        fail("lost", "the next save had no effect");
    }
    if let Some((new2, _, _)) = &beside {
        which_at(BESIDE, &c, None, new2, "beside the other file, later");
    }
}

// ---------------------------------------------------------------- C14

/// Where the top level fields of an encoded message begin.
fn fields(b: &[u8]) -> Vec<usize> {
    let mut out = vec![];
    let mut i = 0;
    let varint = |i: &mut usize| -> Option<u64> {
        let mut v = 0u64;
        for k in 0..10 {
            let x = *b.get(*i)?;
            *i += 1;
            v |= ((x & 127) as u64) << (7 * k);
            if x < 128 {
                return Some(v);
            }
        }
        None
    };
    while i < b.len() {
        out.push(i);
        let tag = match varint(&mut i) {
            Some(t) => t,
            None => break,
        };
        match tag & 7 {
            0 => {
                if varint(&mut i).is_none() {
                    break;
                }
            }
            1 => i += 8,
            2 => match varint(&mut i) {
                Some(n) => i = i.saturating_add(n as usize),
                None => break,
            },
            5 => i += 4,
            _ => break,
        }
    }
    out
}

/// A tree that load has returned must hold together, whatever was in the file.
fn sound(w: &Writer, c: &Arc<SimCloud>, when: &str) {
    let r = w.reader();
    let known: BTreeSet<usize> = c.idx.iter().copied().collect();
    let mut todo = vec![r.root_address()];
    let mut seen = BTreeSet::new();
    let mut points = vec![];
    while let Some(a) = todo.pop() {
        if !seen.insert(a) {
            fail("dangling", &format!("{}: node {:?} is reached twice", when, a));
        }
        if !known.contains(&a.1) {
            fail("dangling", &format!("{}: the centre of node {:?} is not in the data", when, a));
        }
        let found = catch_unwind(AssertUnwindSafe(|| {
            r.get_node_and(a, |n| {
                let kids: Vec<Addr> = match n.children() {
                    Some((s, c)) => std::iter::once((s, a.1)).chain(c.iter().copied()).collect(),
                    None => vec![],
                };
                (kids, n.singletons().to_vec(), n.is_leaf())
            })
        }));
        match found {
            Ok(Some((kids, singles, leaf))) => {
                todo.extend(kids);
                points.extend(singles);
                if leaf {
                    points.push(a.1);
                }
            }
            _ => fail("dangling", &format!("{}: there is no node {:?}", when, a)),
        }
    }
    for p in &points {
        if !known.contains(p) {
            fail("dangling", &format!("{}: the tree holds the point {} which is not in the data", when, p));
        }
    }
    let ask = catch_unwind(AssertUnwindSafe(|| {
        for i in &c.idx {
            if let Ok(path) = r.known_path(*i) {
                for (_, a) in path {
                    if !seen.contains(&a) {
                        fail("dangling", &format!("{}: the known path of {} goes through {:?} which is not in the tree", when, i, a));
                    }
                }
            }
        }
        let q = cloud::query(c);
        for k in [1, 3, c.n() + 1] {
            for (d, i) in r.knn(&&q, k).map_err(|e| e.to_string())? {
                if !known.contains(&i) || dist(c.raw(i), &q).to_bits() != d.to_bits() {
                    fail("dangling", &format!("{}: a neighbour {} at {} that does not exist", when, i, d));
                }
            }
        }
        r.routing_knn(&&q, 2).map_err(|e| e.to_string())?;
        r.path(&&q).map_err(|e| e.to_string())?;
        Ok::<(), String>(())
    }));
    match ask {
        Ok(Ok(())) => {}
        Ok(Err(e)) => fail("dangling", &format!("{}: a query on the loaded tree fails: {}", when, e)),
        Err(e) => fail("panic", &format!("{}: a query on the loaded tree panicked: {}", when, simcore::panic_text(&e))),
    }
}

pub fn c14() {
    setup();
    let c = Arc::new(cloud::make(Shape { max: 25, big: 0, wide: 0, min: 1 }));
    let p = Params::draw();
    let w = build(&c, &p);
    disk().mkdirs(DIR);
    if let Err(e) = save(&w, PATH, "nothing fails") {
        fail("save-failed", &format!("nothing failed, but save returned {}", e));
    }
    let t = whole(&w.reader(), &c);
    drop(w);
    let good = disk().get(PATH).unwrap();
    for _ in 0..3 {
        one_damage(&c, &t, &good);
    }
    // a damaged file leaves nothing behind
    disk().put(PATH, &good);
    match load(&c, PATH, "an intact file") {
        Ok(w) => {
            if let Some(d) = differs(&t, &whole(&w.reader(), &c)) {
                fail("round-trip", &d);
            }
        }
        Err(e) => fail("load-failed", &format!("nothing failed, but load returned {}", e)),
    }
    if disk().open_fds() != 0 {
        fail("leak", &format!("{} files are still open", disk().open_fds()));
    }
}

fn one_damage(c: &Arc<SimCloud>, t: &Whole, good: &[u8]) {
    let mut b = good.to_vec();
    let at = fields(&b);
    let kind = decide("damage", 13);
    let mut cloud = Arc::clone(c);
    // what may come out: an error always; the same tree; or, with `any`, some sound tree
    let mut any = false;
    disk().failed = 0;
    let when: String = match kind {
        0 | 1 => {
            let n = if kind == 0 { decide("cut", b.len().min(60_000)) } else { at[decide("cut field", at.len())] };
            b.truncate(n);
            count("fault file truncated");
            format!("cut to {} of {} bytes", n, good.len())
        }
        2 => {
            b.clear();
            count("fault file empty");
            "an empty file".into()
        }
        3 => {
            for _ in 0..1 + decide("flips", 4) {
                let i = decide("flip at", b.len().min(60_000));
                b[i] ^= 1 << decide("flip bit", 8);
            }
            any = true;
            count("fault bits flipped");
            "flipped bits".into()
        }
        4 => {
            let i = decide("overwrite at", b.len().min(60_000));
            let n = 1 + decide("overwrite len", 12);
            for k in i..(i + n).min(b.len()) {
                b[k] = decide("byte", 256) as u8;
            }
            any = true;
            count("fault bytes overwritten");
            "overwritten bytes".into()
        }
        5 => {
            // a field is missing
            let k = decide("drop field", at.len());
            let (i, j) = (at[k], at.get(k + 1).copied().unwrap_or(b.len()));
            b.drain(i..j);
            any = true;
            count("fault field missing");
            "a field is missing".into()
        }
        6 => {
            // a field is there twice
            let k = decide("double field", at.len());
            let (i, j) = (at[k], at.get(k + 1).copied().unwrap_or(b.len()));
            let f = b[i..j].to_vec();
            let to = at[decide("double to", at.len())];
            b.splice(to..to, f);
            any = true;
            count("fault field doubled");
            "a field is there twice".into()
        }
        7 => {
            b = (0..decide("garbage len", 200)).map(|_| decide("byte", 256) as u8).collect();
            any = true;
            count("fault garbage");
            "garbage".into()
        }
        8 => {
            disk().remove(PATH);
            count("fault file missing");
            "no file".into()
        }
        9 => {
            // reading fails
            count("fault unreadable");
            "a file that cannot be read".into()
        }
        10 => {
            // the point cloud has fewer points than the tree
            cloud = Arc::new(c.without(1 + decide("points gone", c.n())));
            count("fault points missing");
            "data that lacks points".into()
        }
        11 => {
            // zeros at the end, as after a crash of a file system
            let n = 1 + decide("zeroed", b.len().min(60_000));
            let l = b.len();
            for x in &mut b[l - n..] {
                *x = 0;
            }
            any = true;
            count("fault file zeroed");
            "zeros at the end".into()
        }
        _ => {
            disk().remove(PATH);
            disk().mkdirs(PATH);
            count("fault directory instead of a file");
            "a directory".into()
        }
    };
    if kind != 8 && kind != 12 {
        disk().put(PATH, &b);
    }
    disk().faults.benign = flip("rough transfers", 300);
    if kind == 9 {
        disk().ops = 0;
        match decide("read fault", 2) {
            0 => disk().faults.fail_at = Some(1 + decide("fail at", 4 + b.len() / 2000) as u64),
            _ => disk().faults.errors = 200,
        }
    }
    workers();
    let r = load(&cloud, PATH, &when);
    let failed = disk().failed;
    disk().faults = Faults::default();
    // the damage, and what became of it
    let said = r.as_ref().map_or_else(|e| e.to_string(), |_| "a tree".into());
    simcore::observe_state(said.bytes().chain(when.bytes()).fold(kind as u64, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3)));
    match r {
        Err(_) => {
            if kind == 9 && failed == 0 {
                fail("load-failed", "nothing failed, but load returned an error");
            }
            count("loads that returned an error");
        }
        Ok(w) => {
            if kind == 9 && failed > 0 {
                fail("hidden-error", "reading the file failed but load returned a tree");
            }
            sound(&w, &cloud, &when);
            match differs(t, &whole(&w.reader(), &cloud)) {
                None => {
                    if kind == 8 || kind == 12 || kind == 2 || kind == 10 {
                        fail("hidden-error", &format!("{}: load returned a tree", when));
                    }
                    count("damage that did not touch the tree");
                }
                Some(d) => {
                    if !any {
                        fail("bad-tree", &format!("{}: load returned another tree: {}", when, d));
                    }
                    count("damage that gave another sound tree");
                }
            }
        }
    }
    if kind == 12 {
        disk().remove(PATH);
    }
}
