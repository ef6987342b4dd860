//! The cover tree over the simulated data source: builds, queries, plugins, bulk queries (C04 to C11, C20).
use crate::cloud::{self, dist, draw_fault, Fault, Params, Pt, Shape, SimCloud};
use crate::wmm;
use goko::errors::GokoError;
use goko::query_interface::BulkInterface;
use goko::{CoverTreeReader, CoverTreeWriter, GokoResult};
use pointcloud::{PointCloud, PointRef};
use simcore::{count, decide, fail, flip, observe_state};
use std::collections::{BTreeMap, BTreeSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::Ordering::SeqCst;
use std::sync::Arc;

pub type Addr = (i32, usize);
pub type Writer = CoverTreeWriter<SimCloud>;
pub type Reader = CoverTreeReader<SimCloud>;

#[derive(Clone, Debug, PartialEq)]
pub struct Node {
    pub parent: Option<Addr>,
    pub radius: f32,
    pub cov: usize,
    pub nested: Option<i32>,
    pub children: Vec<Addr>,
    pub singles: Vec<usize>,
}
impl Node {
    pub fn all_children(&self, me: Addr) -> Vec<Addr> {
        match self.nested {
            Some(s) => std::iter::once((s, me.1)).chain(self.children.iter().copied()).collect(),
            None => Vec::new(),
        }
    }
}

/// What a reader shows of a tree.
#[derive(Clone, Debug, PartialEq)]
pub struct Snap {
    pub root: Addr,
    pub nodes: BTreeMap<Addr, Node>,
    /// Points under each node.
    pub under: BTreeMap<Addr, Vec<usize>>,
    /// The node that stores each point.
    pub home: BTreeMap<usize, Addr>,
}

pub fn snapshot<D: PointCloud>(r: &CoverTreeReader<D>) -> Snap {
    let mut nodes = BTreeMap::new();
    for (si, layer) in r.layers() {
        if layer.scale_index() != si {
            fail("layers", &format!("the layer at scale index {} says it has scale index {}", si, layer.scale_index()));
        }
        let mut seen = 0;
        layer.for_each_node(|pi, n| {
            seen += 1;
            let a = n.address();
            if a != (si, *pi) {
                fail("layers", &format!("node {:?} is stored on layer {} under index {}", a, si, pi));
            }
            let (nested, children) = match n.children() {
                Some((s, c)) => (Some(s), c.to_vec()),
                None => (None, vec![]),
            };
            nodes.insert(a, Node { parent: n.parent_address(), radius: n.radius(), cov: n.coverage_count(), nested, children, singles: n.singletons().to_vec() });
        });
        if seen != layer.len() {
            fail("layers", &format!("layer {} has {} nodes but its length is {}", si, seen, layer.len()));
        }
    }
    Snap { root: r.root_address(), nodes, under: BTreeMap::new(), home: BTreeMap::new() }
}

impl Snap {
    /// The structure alone: links, and each point stored once. Fills in what is under each node.
    pub fn check_structure(&mut self, indexes: &[usize]) {
        let bad = |m: String| -> ! { fail("structure", &m) };
        let root = match self.nodes.get(&self.root) {
            Some(n) => n,
            None => bad(format!("there is no node at the root address {:?}", self.root)),
        };
        if root.parent.is_some() {
            bad(format!("the root has a parent {:?}", root.parent));
        }
        let mut order = vec![self.root];
        let mut i = 0;
        let mut seen: BTreeSet<Addr> = order.iter().copied().collect();
        while i < order.len() {
            let a = order[i];
            i += 1;
            let n = &self.nodes[&a];
            for c in n.all_children(a) {
                if c.0 >= a.0 {
                    bad(format!("child {:?} of {:?} is not on a lower layer", c, a));
                }
                let cn = match self.nodes.get(&c) {
                    Some(x) => x,
                    None => bad(format!("child {:?} of {:?} is not in the tree", c, a)),
                };
                if cn.parent != Some(a) {
                    bad(format!("child {:?} of {:?} has the parent {:?}", c, a, cn.parent));
                }
                if !seen.insert(c) {
                    bad(format!("node {:?} is the child of more than one node", c));
                }
                order.push(c);
            }
        }
        if order.len() != self.nodes.len() {
            let lost: Vec<&Addr> = self.nodes.keys().filter(|k| !seen.contains(k)).take(3).collect();
            bad(format!("{} of {} nodes cannot be reached from the root, e.g. {:?}", self.nodes.len() - order.len(), self.nodes.len(), lost));
        }
        let mut home: BTreeMap<usize, Addr> = BTreeMap::new();
        for a in order.iter().rev() {
            let n = &self.nodes[a];
            let mut under: Vec<usize> = n.singles.clone();
            if n.nested.is_none() {
                under.push(a.1);
            }
            for p in &under {
                if let Some(o) = home.insert(*p, *a) {
                    bad(format!("point {} is stored twice, at {:?} and {:?}", p, o, a));
                }
            }
            for c in n.all_children(*a) {
                under.extend(self.under[&c].iter());
            }
            self.under.insert(*a, under);
        }
        let want: BTreeSet<usize> = indexes.iter().copied().collect();
        let have: BTreeSet<usize> = home.keys().copied().collect();
        if want != have {
            let missing: Vec<usize> = want.difference(&have).copied().take(5).collect();
            let extra: Vec<usize> = have.difference(&want).copied().take(5).collect();
            bad(format!("points missing from the tree {:?}, points that are not in the data {:?}", missing, extra));
        }
        for (a, n) in &self.nodes {
            if n.cov != self.under[a].len() {
                bad(format!("node {:?} says it covers {} points but {} are below it", a, n.cov, self.under[a].len()));
            }
        }
        self.home = home;
    }

    /// Distances: radius, covering and separation.
    pub fn check_geometry<F: Fn(usize, usize) -> f32>(&self, scale_base: f32, dist: F) {
        for (a, n) in &self.nodes {
            let scale = scale_base.powi(a.0);
            if !(n.radius >= 0.0) {
                fail("geometry", &format!("node {:?} has the radius {}", a, n.radius));
            }
            for p in &self.under[a] {
                let d = dist(a.1, *p);
                if d > n.radius * (1.0 + 1e-5) {
                    fail("geometry", &format!("point {} below {:?} is {} from its centre, its radius is {}", p, a, d, n.radius));
                }
                if d > scale * (1.0 + 1e-4) {
                    fail("geometry", &format!("point {} below {:?} is {} from its centre, its scale is {}", p, a, d, scale));
                }
            }
            let kids = n.all_children(*a);
            for (i, c) in kids.iter().enumerate() {
                for e in &kids[..i] {
                    let s = scale_base.powi(c.0.min(e.0));
                    let d = dist(c.1, e.1);
                    if d < s * (1.0 - 1e-4) {
                        fail("geometry", &format!("children {:?} and {:?} of {:?} are only {} apart, their scale is {}", c, e, a, d, s));
                    }
                }
            }
        }
    }
}

impl Snap {
    /// The parameters are followed as they are documented.
    pub fn check_parameters(&self, p: &Params) {
        for (a, n) in &self.nodes {
            let bad = |m: &str| fail("parameters", &format!("node {:?} (covers {}, children {:?}, singletons {:?}) {}: {:?}", a, n.cov, n.all_children(*a), n.singles, m, p));
            if n.nested.is_some() {
                if n.cov <= p.leaf_cutoff {
                    bad("covers no more than the cutoff but is no leaf");
                }
                if a.0 < p.min_res {
                    bad("is below the smallest resolution but is no leaf");
                }
                if !p.singletons && !n.singles.is_empty() {
                    bad("holds singletons although they are off");
                }
                if p.singletons && n.children.iter().any(|c| self.nodes[c].cov == 1) {
                    bad("has a child of a single point that is not stored as a singleton");
                }
            }
        }
    }
}

/// A finished build is a valid tree that agrees with itself everywhere.
pub fn check_tree(r: &Reader, c: &SimCloud, p: &Params) -> Snap {
    let mut s = snapshot(r);
    s.check_structure(&c.idx);
    s.check_geometry(p.scale_base, |i, j| dist(c.raw(i), c.raw(j)));
    s.check_parameters(p);
    if r.node_count() != s.nodes.len() {
        fail("structure", &format!("node count {} for {} nodes", r.node_count(), s.nodes.len()));
    }
    let total = r.parameters().total_nodes.load(SeqCst);
    if total != s.nodes.len() {
        fail("structure", &format!("the parameters say {} nodes were made, there are {}", total, s.nodes.len()));
    }
    for i in &c.idx {
        let home = s.home[i];
        match c.quietly(|| r.known_path(*i)) {
            Ok(path) => check_known_path(&s, c, *i, &path, home),
            Err(e) => fail("final-address", &format!("the known path of point {} is an error: {}", i, e)),
        }
    }
    s
}

pub fn check_known_path(s: &Snap, c: &SimCloud, i: usize, path: &[(f32, Addr)], home: Addr) {
    let mut want = vec![home];
    while let Some(p) = s.nodes[want.last().unwrap()].parent {
        want.push(p);
    }
    want.reverse();
    let have: Vec<Addr> = path.iter().map(|x| x.1).collect();
    if want != have {
        fail("known-path", &format!("point {} is stored at {:?}, its known path is {:?} instead of {:?}", i, home, have, want));
    }
    for (d, a) in path {
        let t = dist(c.raw(a.1), c.raw(i));
        if t.to_bits() != d.to_bits() {
            fail("known-path", &format!("known path of point {}: distance {} to {:?} is really {}", i, d, a, t));
        }
    }
}

pub fn workers() {
    rayon_core::sim_set_workers(1 + decide("workers", 4));
}

pub fn setup() {
    wmm::install(false, 0);
    workers();
}

/// A build that has to succeed.
pub fn build(c: &Arc<SimCloud>, p: &Params) -> Writer {
    match p.builder().build(Arc::clone(c)) {
        Ok(w) => w,
        Err(e) => fail("build-failed", &format!("no access failed, but the build of {} points with {:?} returned {}", c.n(), p, e)),
    }
}

struct Carried<T>(T);
unsafe impl<T> Send for Carried<T> {}
impl<T> Carried<T> {
    fn get(self) -> T {
        self.0
    }
}

/// Runs a build here, or as a job of the pool, where other builds may run as well.
fn somewhere<R>(f: impl FnOnce() -> R) -> R {
    if !flip("build in the pool", 120) {
        return f();
    }
    count("builds on a thread of the pool");
    let others: Vec<(Arc<SimCloud>, Params)> =
        (0..decide("other builds in the pool", 4)).map(|_| (Arc::new(cloud::make(Shape { max: 12, ..Default::default() })), Params::draw())).collect();
    let mut out = None;
    let mine = Carried((f, &mut out));
    rayon_core::scope(|s| {
        let at = decide("place among them", others.len() + 1);
        let mut mine = Some(mine);
        for i in 0..others.len() + 1 {
            if i == at {
                let mine = mine.take().unwrap();
                s.spawn(move |_| {
                    let (f, out) = mine.get();
                    *out = Some(f());
                });
            }
            if let Some((c, p)) = others.get(i) {
                s.spawn(move |_| drop(build(c, p)));
            }
        }
    });
    out.unwrap()
}

pub fn brief(s: &Snap) {
    let mut h = 17u64;
    for (a, n) in &s.nodes {
        h = h.wrapping_mul(31).wrapping_add(a.0 as u64 ^ ((a.1 as u64) << 8)).wrapping_mul(31).wrapping_add(n.cov as u64 + n.singles.len() as u64 * 1000);
    }
    observe_state(h);
    simcore::note(&format!("tree of {} points: {} nodes, root {:?}", s.home.len(), s.nodes.len(), s.root));
}

// ---------------------------------------------------------------- C04

pub fn c04() {
    setup();
    let c = Arc::new(cloud::make(Shape { max: 40, big: 15, wide: 20, min: 1 }));
    let p = Params::draw();
    let w = somewhere(|| build(&c, &p));
    if rayon_core::sim_pending() != 0 {
        fail("still-building", &format!("build returned while {} splitting jobs were waiting", rayon_core::sim_pending()));
    }
    let reads = c.reads();
    let r = w.reader();
    let s = check_tree(&r, &c, &p);
    // nobody may still be at work
    simcore::sleep(200);
    if c.reads() != reads {
        fail("still-building", "the data was read after build had returned");
    }
    let again = snapshot(&w.reader());
    if again.nodes != s.nodes {
        fail("still-building", "the tree changed after build had returned");
    }
    brief(&s);
}

/// No points: an error, and no effect on what follows.
pub fn c04_empty() {
    setup();
    let mut c = cloud::make(Shape { max: 3, ..Default::default() });
    c.idx.clear();
    c.pts.clear();
    let p = Params::draw();
    match catch_unwind(AssertUnwindSafe(|| p.builder().build(Arc::new(c)))) {
        Ok(Err(_)) => {}
        Ok(Ok(_)) => fail("empty", "a build without any point succeeded"),
        Err(e) => fail("panic", &format!("a build without any point panicked: {}", simcore::panic_text(&e))),
    }
    c04()
}

// ---------------------------------------------------------------- C05

/// How two versions of a node differ, down to the bit.
pub fn compare_as(x: Option<&Node>, y: Option<&Node>) -> Option<String> {
    let same = match (x, y) {
        (Some(x), Some(y)) => x == y && x.radius.to_bits() == y.radius.to_bits(),
        _ => false,
    };
    if same {
        None
    } else {
        Some(format!("{:?} became {:?}", x, y))
    }
}

fn compare(a: &Snap, b: &Snap, what: &str) {
    if a.root != b.root {
        fail("not-deterministic", &format!("{}: root {:?} and {:?}", what, a.root, b.root));
    }
    for k in a.nodes.keys().chain(b.nodes.keys()) {
        let (x, y) = (a.nodes.get(k), b.nodes.get(k));
        let same = match (x, y) {
            (Some(x), Some(y)) => x == y && x.radius.to_bits() == y.radius.to_bits(),
            _ => false,
        };
        if !same {
            fail("not-deterministic", &format!("{}: node {:?} is {:?} in one build and {:?} in the other", what, k, x, y));
        }
    }
}

pub fn c05() {
    setup();
    let c = Arc::new(cloud::make(Shape { max: 40, big: 15, wide: 20, min: 1 }));
    let mut p = Params::draw();
    p.seed = Some(decide("seed", 1000) as u64);
    let mut first: Option<(Snap, Vec<Addr>)> = None;
    let n = 2 + flip("three builds", 300) as usize;
    for i in 0..n {
        workers();
        // draw from the process's own randomness so that the builds start from different states of it
        for _ in 0..decide("entropy", 4) {
            let _ = rand::random::<u64>();
            let _ = std::collections::hash_map::RandomState::new();
        }
        let other = if i > 0 && flip("concurrent build", 250) {
            // something else uses the pool at the same time
            let c2 = Arc::new(cloud::make(Shape { max: 20, ..Default::default() }));
            let p2 = Params::draw();
            count("two builds at once");
            Some(simcore::spawn("other-build", false, move || {
                build(&c2, &p2);
            }))
        } else {
            None
        };
        let w = somewhere(|| build(&c, &p));
        if let Some(t) = other {
            simcore::join(t);
        }
        let r = w.reader();
        let mut s = snapshot(&r);
        s.check_structure(&c.idx);
        let finals: Vec<Addr> = c.idx.iter().map(|i| c.quietly(|| r.known_path(*i)).map(|p| p.last().unwrap().1).unwrap_or((0, 0))).collect();
        match &first {
            None => first = Some((s, finals)),
            Some((f, ff)) => {
                compare(f, &s, &format!("seed {:?}, {:?}", p.seed, p));
                if *ff != finals {
                    fail("not-deterministic", "the final addresses of two builds differ");
                }
            }
        }
    }
    brief(&first.unwrap().0);
}

/// The seed in a configuration file means the same as the seed set on the builder.
pub fn c05_config() {
    setup();
    let c = Arc::new(cloud::make(Shape { max: 40, big: 0, wide: 0, min: 12 }));
    let mut p = Params::draw();
    p.seed = Some(decide("seed", 1000) as u64);
    p.first = false;
    let path = format!("{}/params.yml", crate::runner::scratch());
    let verbosity = if flip("verbosity given", 500) { format!("verbosity: {}\n", decide("verbosity", 2)) } else { String::new() };
    std::fs::write(
        &path,
        format!("---\nscale_base: {:?}\nleaf_cutoff: {}\nmin_res_index: {}\nuse_singletons: {}\n{}rng_seed: {}\n", p.scale_base as f64, p.leaf_cutoff, p.min_res, p.singletons, verbosity, p.seed.unwrap()),
    )
    .unwrap();
    let a = goko::CoverTreeBuilder::from_yaml(&path).build(Arc::clone(&c));
    let mut b = goko::CoverTreeBuilder::new();
    b.set_scale_base(p.scale_base).set_leaf_cutoff(p.leaf_cutoff).set_min_res_index(p.min_res).set_use_singletons(p.singletons).set_rng_seed(p.seed.unwrap());
    workers();
    let b = b.build(Arc::clone(&c));
    match (a, b) {
        (Ok(a), Ok(b)) => {
            let (a, b) = (snapshot(&a.reader()), snapshot(&b.reader()));
            compare(&a, &b, "configuration file and builder with the same seed");
            brief(&a);
        }
        _ => fail("build-failed", "no access failed, but a build returned an error"),
    }
}

// ---------------------------------------------------------------- C06

pub fn c06() {
    setup();
    let c = Arc::new(cloud::make(Shape { max: 40, big: 25, wide: 30, min: 1 }));
    let p = Params::draw();
    // how many accesses a build makes here is not known in advance: a multiple of n log n
    let f = draw_fault((c.n() as u64 * 6).max(8), c.n());
    c.set_fault(f);
    let r = somewhere(|| catch_unwind(AssertUnwindSafe(|| p.builder().build(Arc::clone(&c)))));
    let hits = c.hits();
    match r {
        Err(e) => fail("panic", &format!("build panicked ({} accesses failed, {:?}): {}", hits, f, simcore::panic_text(&e))),
        Ok(Ok(w)) => {
            if hits > 0 {
                fail("hidden-error", &format!("{} accesses failed ({:?}) but build succeeded", hits, f));
            }
            check_tree(&w.reader(), &c, &p);
            count("builds without a failed access");
        }
        Ok(Err(e)) => {
            if hits == 0 && c.hits() == 0 {
                fail("build-failed", &format!("no access failed, but build returned {}", e));
            }
            match e {
                GokoError::PointCloudError(_) => {}
                e => fail("wrong-error", &format!("an access failed, build returned the unrelated error {}", e)),
            }
            count("builds given up");
            simcore::note(&format!("{:?}: {} failed accesses", f, hits));
        }
    }
    // the process is none the worse: jobs of the failed build may still run, a new build succeeds
    c.set_fault(Fault::None);
    let w = build(&c, &p);
    let s = check_tree(&w.reader(), &c, &p);
    simcore::sleep(200);
    if rayon_core::sim_pending() != 0 {
        fail("still-building", "jobs of a build are left over");
    }
    brief(&s);
}

// ---------------------------------------------------------------- C07, C08, C09

fn magnitude(c: &SimCloud, q: &Pt) -> f32 {
    c.pts.iter().map(|p| dist(p, q)).fold(0.0, f32::max)
}

pub fn check_knn_over(c: &SimCloud, q: &Pt, k: usize, got: &[(f32, usize)], over: &[usize], what: &str) {
    let n = over.len();
    if got.len() != k.min(n) {
        fail("knn", &format!("{} for k = {} of {} points returned {} results", what, k, n, got.len()));
    }
    let set: BTreeSet<usize> = over.iter().copied().collect();
    let mut seen = BTreeSet::new();
    let mut last = 0.0f32;
    for (d, i) in got {
        if !set.contains(i) {
            fail("knn", &format!("{} returned {} which is not among the indexed points", what, i));
        }
        if !seen.insert(*i) {
            fail("knn", &format!("{} returned {} twice", what, i));
        }
        let t = dist(c.raw(*i), q);
        if t.to_bits() != d.to_bits() {
            fail("knn", &format!("{} says point {} is {} away, it is {}", what, i, d, t));
        }
        if *d < last {
            fail("knn", &format!("{} is not sorted: {} after {}", what, d, last));
        }
        last = *d;
    }
    if k == 0 {
        return;
    }
    let tol = magnitude(c, q) * 1e-5;
    for i in over {
        if !seen.contains(i) {
            let d = dist(c.raw(*i), q);
            if d < last - tol {
                fail("knn", &format!("{} (k = {}) left out point {} at distance {} but returned one at {}", what, k, i, d, last));
            }
        }
    }
}

pub fn centers(s: &Snap) -> Vec<usize> {
    let set: BTreeSet<usize> = s.nodes.keys().map(|a| a.1).collect();
    set.into_iter().collect()
}

/// The descent as documented, computed from the snapshot. `None` where rounding or ties leave a choice open.
pub fn check_path(s: &Snap, c: &SimCloud, p: &Params, q: &Pt, got: &[(f32, Addr)]) {
    let bad = |m: String| -> ! { fail("path", &m) };
    if got.is_empty() || got[0].1 != s.root {
        bad(format!("a path starts at {:?}, the root is {:?}", got.first(), s.root));
    }
    for (i, (d, a)) in got.iter().enumerate() {
        let t = dist(c.raw(a.1), q);
        if t.to_bits() != d.to_bits() {
            bad(format!("step {} of a path gives the distance {} to {:?}, it is {}", i, d, a, t));
        }
        let n = &s.nodes[a];
        let kids = n.all_children(*a);
        let inside: Vec<(f32, Addr)> = kids.iter().map(|k| (dist(c.raw(k.1), q), *k)).filter(|(d, k)| *d < p.scale_base.powi(k.0)).collect();
        match got.get(i + 1) {
            None => {
                // ends only where no child contains the point; among nearest ones, only the nearest counts
                if !inside.is_empty() {
                    bad(format!("a path ends at {:?} though its child {:?} contains the point", a, inside[0]));
                }
            }
            Some((nd, next)) => {
                if !kids.contains(next) {
                    bad(format!("a path goes from {:?} to {:?} which is not its child", a, next));
                }
                if !inside.iter().any(|x| x.1 == *next) {
                    bad(format!("a path goes to {:?} whose scale {} does not contain the point at {}", next, p.scale_base.powi(next.0), nd));
                }
                if p.first {
                    if inside[0].1 != *next {
                        bad(format!("a path goes to {:?} though {:?} comes first", next, inside[0]));
                    }
                } else {
                    let min = inside.iter().map(|x| x.0).fold(f32::MAX, f32::min);
                    if *nd > min {
                        bad(format!("a path goes to {:?} at {} though a child at {} contains the point", next, nd, min));
                    }
                }
            }
        }
    }
}

/// One query of any kind, checked. Returns false if it returned an error.
pub fn one_query(r: &Reader, s: &Snap, c: &SimCloud, p: &Params, kinds: &[usize], bulk: bool) -> Result<(), GokoError> {
    let q = cloud::query(c);
    let k = match decide("k", 6) {
        0 => 1,
        1 => 2,
        2 => c.n(),
        3 => c.n() + 3,
        4 => 0,
        _ => 1 + decide("k any", c.n()),
    };
    let _ = bulk;
    match kinds[decide("query kind", kinds.len())] {
        0 => {
            let got = r.knn(&&q, k)?;
            check_knn_over(c, &q, k, &got, &c.idx, "knn");
            count("knn answered");
        }
        1 => {
            let got = r.routing_knn(&&q, k)?;
            check_knn_over(c, &q, k, &got, &centers(s), "routing_knn");
            count("routing_knn answered");
        }
        2 => {
            let got = r.path(&&q)?;
            check_path(s, c, p, &q, &got);
            count("path answered");
        }
        _ => {
            if flip("unknown index", 100) {
                let i = c.idx.iter().max().unwrap() + 1 + decide("unknown by", 5);
                match r.known_path(i) {
                    Err(GokoError::IndexNotInTree(x)) if x == i => {}
                    other => fail("known-path", &format!("the known path of the unknown index {} is {:?}", i, other)),
                }
                return Ok(());
            }
            let i = c.idx[decide("known which", c.n())];
            let got = r.known_path(i)?;
            check_known_path(s, c, i, &got, s.home[&i]);
            count("known_path answered");
        }
    }
    Ok(())
}

/// What the writer does while others query.
pub fn writer_action(w: &mut Writer, attached: &mut Vec<usize>) {
    match decide("writer action", 4) {
        0 => w.refresh(),
        1 => {
            let mut k = decide("plugin", plug::KINDS);
            // the two Gaussians are one plugin; the own one, attached again, could apply to fewer nodes and stay on the others
            if (k == 3 && attached.contains(&7)) || (k == 7 && attached.contains(&3)) || (k == 6 && attached.contains(&6)) {
                k = 2;
            }
            plug::attach(w, k);
            if !attached.contains(&k) {
                attached.push(k);
            }
        }
        2 => {
            w.refresh_final_indexes();
            count("final addresses rebuilt");
        }
        _ => {
            w.refresh();
            w.refresh();
        }
    }
}

struct World {
    c: Arc<SimCloud>,
    p: Params,
    s: Arc<Snap>,
    w: Writer,
}

/// Now and then the tree was saved and loaded.
pub fn reloaded(w: Writer, c: &Arc<SimCloud>) -> Writer {
    if !flip("loaded tree", 120) {
        return w;
    }
    count("trees saved and loaded");
    match Writer::load(&w.save(), Arc::clone(c)) {
        Ok(w) => w,
        Err(e) => fail("load-failed", &format!("the message of a tree of {} points does not load: {}", c.n(), e)),
    }
}

fn world(shape: Shape) -> World {
    setup();
    let c = Arc::new(cloud::make(shape));
    let p = Params::draw();
    let w = build(&c, &p);
    let mut s = snapshot(&w.reader());
    s.check_structure(&c.idx);
    brief(&s);
    let w = reloaded(w, &c);
    World { c, p, s: Arc::new(s), w }
}

fn query_threads(x: &World, n: usize, kinds: &'static [usize], rounds: usize) -> Vec<usize> {
    (0..n)
        .map(|i| {
            let r = x.w.reader();
            let (c, p, s) = (Arc::clone(&x.c), x.p.clone(), Arc::clone(&x.s));
            simcore::spawn(&format!("query{}", i), false, move || {
                let mut r = r;
                for _ in 0..rounds {
                    if flip("clone reader", 100) {
                        r = r.clone();
                    }
                    if let Err(e) = one_query(&r, &s, &c, &p, kinds, false) {
                        fail("query-failed", &format!("no access failed and the writer is there, but a query returned {}", e));
                    }
                }
            })
        })
        .collect()
}

fn concurrent(kinds: &'static [usize], shape: Shape) {
    let mut x = world(shape);
    let n = 1 + decide("query threads", 3);
    let rounds = 2 + decide("query rounds", 5);
    let ts = query_threads(&x, n, kinds, rounds);
    let mut attached = Vec::new();
    for _ in 0..decide("writer actions", 4) {
        writer_action(&mut x.w, &mut attached);
        if flip("new reader", 300) {
            let r = x.w.reader();
            if let Err(e) = one_query(&r, &x.s, &x.c, &x.p, kinds, false) {
                fail("query-failed", &format!("no access failed and the writer is there, but a query returned {}", e));
            }
        }
    }
    for t in ts {
        simcore::join(t);
    }
    let mut s = snapshot(&x.w.reader());
    s.check_structure(&x.c.idx);
    if s.nodes != x.s.nodes {
        fail("structure", "attaching plugins, publishing and querying changed the tree's structure");
    }
}

pub fn c07() {
    concurrent(&[0, 0, 1], Shape { max: 40, big: 15, wide: 25, min: 1 });
}
pub fn c09() {
    concurrent(&[2, 3], Shape { max: 40, big: 15, wide: 25, min: 1 });
}

// ---------------------------------------------------------------- C25

/// What the views of a tree are, from a snapshot of it.
struct Views {
    by_layer: BTreeMap<i32, Vec<Addr>>,
}
impl Views {
    fn new(s: &Snap) -> Views {
        let mut by_layer: BTreeMap<i32, Vec<Addr>> = BTreeMap::new();
        for a in s.nodes.keys() {
            by_layer.entry(a.0).or_default().push(*a);
        }
        Views { by_layer }
    }
    fn on(&self, si: i32) -> &[Addr] {
        self.by_layer.get(&si).map_or(&[], |v| &v[..])
    }
}
fn parts(s: &Snap, a: Addr) -> f64 {
    (s.nodes[&a].singles.len() + s.nodes[&a].all_children(a).len()) as f64
}
fn weighed(s: &Snap, over: &[Addr]) -> f64 {
    let mut singles = 0.0;
    let mut pops = vec![];
    for a in over {
        singles += s.nodes[a].singles.len() as f64;
        pops.extend(s.nodes[a].all_children(*a).iter().map(|c| s.under[c].len() as f64));
    }
    let max = pops.iter().copied().fold(0.0, f64::max);
    let max = if pops.is_empty() { 1.0 } else { max };
    (pops.iter().sum::<f64>() + singles) / max
}

/// One look at the tree. `gone` says if the writer may be gone by now, in which case there may be nothing to see.
fn one_view(r: &Reader, s: &Snap, p: &Params, v: &Views, gone: &dyn Fn() -> bool) {
    let log = |x: f64| x.ln() / (p.scale_base as f64).ln();
    let bad = |what: String| fail("view", &what);
    let same = |what: String, got: f32, want: f64| {
        let got = got as f64;
        if (got.is_nan() && want.is_nan()) || got == want || (got - want).abs() <= 1e-3 * (1.0 + want.abs()) {
            return;
        }
        // no number once there is nothing to compute it from
        if !got.is_finite() && gone() {
            count("views of a tree that is gone");
            return;
        }
        bad(format!("{} is {}, of this tree it is {}", what, got, want))
    };
    let all: Vec<Addr> = s.nodes.keys().copied().collect();
    let a = all[decide("view node", all.len().min(50_000))];
    let n = &s.nodes[&a];
    let top = s.root.0;
    // a layer with nodes, or any
    let si = if flip("any layer", 200) { p.min_res - 1 + decide("view layer", (r.len()).min(50_000)) as i32 } else { a.0 };
    let here = v.on(si);
    match decide("view", 7) {
        0 => {
            let mut last = None;
            for (si, l) in r.layers() {
                if l.scale_index() != si || last.map_or(si != p.min_res - 2 + r.len() as i32, |x| si != x - 1) {
                    bad(format!("layer {} (it says {}) after layer {:?}", si, l.scale_index(), last));
                }
                last = Some(si);
                let mut c = l.node_center_indexes();
                c.sort();
                let want: Vec<usize> = v.on(si).iter().map(|a| a.1).collect();
                if c != want && !(c.is_empty() && gone()) {
                    bad(format!("layer {} has the nodes {:?}, in the tree they are {:?}", si, c, want));
                }
                let n = l.len();
                if n != want.len() && !(n == 0 && gone()) {
                    bad(format!("layer {} has the length {}, there are {} nodes", si, n, want.len()));
                }
                if l.is_empty() != want.is_empty() && !gone() {
                    bad(format!("layer {} with {} nodes says empty = {}", si, want.len(), l.is_empty()));
                }
            }
            if last != Some(p.min_res - 1) {
                bad(format!("the layers end with {:?}", last));
            }
        }
        1 => {
            let got = r.get_node_children_and(a, |nested, c| (nested, c.to_vec()));
            let want = n.nested.map(|s| ((s, a.1), n.children.clone()));
            if got != want && !(got.is_none() && gone()) {
                bad(format!("the children of {:?} are {:?}, in the tree they are {:?}", a, got, want));
            }
            let got = r.get_node_and(a, |n| (n.children_len(), n.singletons_len(), n.coverage_count(), n.is_leaf(), n.parent_address(), *n.center_index(), *n.scale_index()));
            let want = Some((n.all_children(a).len(), n.singles.len(), n.cov, n.nested.is_none(), n.parent, a.1, a.0));
            if got != want && !(got.is_none() && gone()) {
                bad(format!("node {:?} shows {:?}, in the tree it is {:?}", a, got, want));
            }
        }
        2 => same(format!("the fractal dimension of node {:?}", a), r.node_fractal_dim(a), log(parts(s, a))),
        3 => same(format!("the weighted fractal dimension of node {:?}", a), r.node_weighted_fractal_dim(a), log(weighed(s, &[a]))),
        4 => {
            let all: f64 = here.iter().map(|a| parts(s, *a)).sum();
            same(format!("the fractal dimension of layer {}", si), r.layer_fractal_dim(si), log(all) - log(here.len() as f64));
        }
        5 => {
            let most = here.iter().map(|a| s.under[a].len()).max().unwrap_or(1) as f64;
            let own: f64 = here.iter().map(|a| s.under[a].len() as f64 / most).sum();
            same(format!("the weighted fractal dimension of layer {}", si), r.layer_weighted_fractal_dim(si), log(weighed(s, here)) - log(own));
        }
        _ => {
            let got = r.node_count();
            if got != s.nodes.len() && !(got < s.nodes.len() && gone()) {
                bad(format!("{} nodes, there are {}", got, s.nodes.len()));
            }
            let range = r.scale_range();
            if r.root_address() != s.root || range != (p.min_res..p.min_res - 1 + r.len() as i32) || !(range.contains(&top) || top < p.min_res) || r.is_empty() {
                bad(format!("root {:?}, scales {:?}, {} layers; the root is {:?}", r.root_address(), range, r.len(), s.root));
            }
            // a node that is not there
            let absent = (si, usize::MAX / 2);
            if r.get_node_and(absent, |n| n.address()).is_some() || r.get_node_children_and(absent, |_, _| ()).is_some() {
                bad(format!("there is a node {:?}", absent));
            }
            let got: Vec<(usize, usize)> = r.layer(si).map_nodes(|i, n| (*i, n.coverage_count()));
            let got: BTreeMap<usize, usize> = got.into_iter().collect();
            let want: BTreeMap<usize, usize> = here.iter().map(|a| (a.1, s.under[a].len())).collect();
            if got != want && !(got.is_empty() && gone()) {
                bad(format!("layer {} maps to {:?}, in the tree it is {:?}", si, got, want));
            }
        }
    }
    count("views compared");
}

pub fn c25() {
    let x = world(Shape { max: 40, big: 10, wide: 0, min: 1 });
    let World { c: _, p, s, w } = x;
    let goes = flip("writer goes", 300);
    let going = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let v = Arc::new(Views::new(&s));
    let rounds = 2 + decide("view rounds", 8);
    let ts: Vec<usize> = (0..1 + decide("view threads", 3))
        .map(|i| {
            let (mut r, p, s, v, going) = (w.reader(), p.clone(), Arc::clone(&s), Arc::clone(&v), Arc::clone(&going));
            simcore::spawn(&format!("view{}", i), false, move || {
                for _ in 0..rounds {
                    if flip("clone reader", 100) {
                        r = r.clone();
                    }
                    if let Err(e) = catch_unwind(AssertUnwindSafe(|| one_view(&r, &s, &p, &v, &|| going.load(SeqCst)))) {
                        fail("panic", &format!("looking at the tree panicked: {}", simcore::panic_text(&e)));
                    }
                }
            })
        })
        .collect();
    let mut w = Some(w);
    let mut attached = vec![];
    for _ in 0..decide("writer actions", 4) {
        writer_action(w.as_mut().unwrap(), &mut attached);
    }
    if goes {
        count("fault writer dropped");
        going.store(true, SeqCst);
        drop(w.take());
    }
    for t in ts {
        simcore::join(t);
    }
    if let Some(w) = w {
        let r = w.reader();
        for _ in 0..4 {
            one_view(&r, &s, &p, &v, &|| false);
        }
    }
}

/// Failing accesses during queries.
pub fn c08_faults() {
    let x = world(Shape { max: 40, big: 25, wide: 40, min: 1 });
    let threads = 1 + decide("query threads", 2);
    let rounds = 2 + decide("query rounds", 4);
    let ts: Vec<usize> = (0..threads)
        .map(|i| {
            let r = x.w.reader();
            let (c, p, s) = (Arc::clone(&x.c), x.p.clone(), Arc::clone(&x.s));
            simcore::spawn(&format!("query{}", i), false, move || {
                for _ in 0..rounds {
                    let f = draw_fault(c.n() as u64 + 4, c.n());
                    if threads == 1 {
                        c.set_fault(f);
                    }
                    let before = c.hits();
                    let res = catch_unwind(AssertUnwindSafe(|| one_query(&r, &s, &c, &p, &[0, 1, 2, 3], false)));
                    match res {
                        Err(e) => fail("panic", &format!("a query panicked when an access failed ({:?}): {}", f, simcore::panic_text(&e))),
                        // a correct answer although an access failed elsewhere or did not matter is fine, a wrong one was reported already
                        Ok(Ok(())) => {
                            if threads == 1 && c.hits() > before {
                                fail("hidden-error", &format!("{} accesses of a query failed ({:?}) but it succeeded", c.hits() - before, f));
                            }
                        }
                        Ok(Err(e)) => {
                            if c.hits() == before && threads == 1 {
                                fail("query-failed", &format!("no access failed and the writer is there, but a query returned {}", e));
                            }
                            match e {
                                GokoError::PointCloudError(_) => count("queries that returned an error"),
                                e => fail("wrong-error", &format!("an access failed, a query returned the unrelated error {}", e)),
                            }
                        }
                    }
                    if threads == 1 {
                        c.set_fault(Fault::None);
                        if let Err(e) = one_query(&r, &s, &c, &p, &[0, 1, 2, 3], false) {
                            fail("query-failed", &format!("after a failed query the reader returned {}", e));
                        }
                    }
                }
            })
        })
        .collect();
    if threads > 1 {
        // with several queries at once, one fault plan for all of them
        let f = draw_fault((x.c.n() as u64 + 4) * 3, x.c.n());
        x.c.set_fault(f);
    }
    for t in ts {
        simcore::join(t);
    }
    x.c.set_fault(Fault::None);
    let r = x.w.reader();
    for _ in 0..3 {
        if let Err(e) = one_query(&r, &x.s, &x.c, &x.p, &[0, 1, 2, 3], false) {
            fail("query-failed", &format!("after failed queries a reader returned {}", e));
        }
    }
}

/// The writer goes away while queries run.
pub fn c08_teardown() {
    let x = world(Shape { max: 40, big: 5, wide: 10, min: 1 });
    let n = 1 + decide("query threads", 3);
    let rounds = 2 + decide("query rounds", 5);
    let gone = Arc::new(std::sync::atomic::AtomicBool::new(false));
    let ts: Vec<usize> = (0..n)
        .map(|i| {
            let r = x.w.reader();
            let (c, p, s) = (Arc::clone(&x.c), x.p.clone(), Arc::clone(&x.s));
            let gone = Arc::clone(&gone);
            simcore::spawn(&format!("query{}", i), false, move || {
                let mut r = r;
                for _ in 0..rounds {
                    if flip("clone reader", 150) {
                        r = r.clone();
                    }
                    match catch_unwind(AssertUnwindSafe(|| one_query(&r, &s, &c, &p, &[0, 1, 2, 3], false))) {
                        Err(e) => fail("panic", &format!("a query panicked while the writer went away: {}", simcore::panic_text(&e))),
                        Ok(Ok(())) => {}
                        Ok(Err(e)) => {
                            if !gone.load(SeqCst) {
                                fail("query-failed", &format!("the writer is there, but a query returned {}", e));
                            }
                            count("queries after the writer had gone");
                        }
                    }
                }
            })
        })
        .collect();
    simcore::sleep(decide("teardown after", 400) as u64);
    gone.store(true, SeqCst);
    let World { w, .. } = x;
    drop(w);
    count("fault writer dropped");
    for t in ts {
        simcore::join(t);
    }
}

// ---------------------------------------------------------------- C10

pub mod plug {
    use super::*;
    use goko::plugins::discrete::prelude::*;
    use goko::plugins::gaussians::*;
    use goko::plugins::labels::*;
    use goko::plugins::{GokoPlugin, NodePlugin};
    use goko::plugins::utils::*;

    pub const KINDS: usize = 8;

    /// A plugin of a user's own: on every other node at most, prepared by attaching another one, which it builds on.
    #[derive(Debug, Clone)]
    pub struct Census {
        pub least: usize,
    }
    #[derive(Debug, Clone)]
    pub struct Counted {
        pub below: usize,
        pub seen: usize,
        pub at: Addr,
    }
    impl NodePlugin<SimCloud> for Counted {}
    #[derive(Debug, Clone)]
    pub struct Tally;
    #[derive(Debug, Clone)]
    pub struct Marks {
        pub n: usize,
    }
    impl NodePlugin<SimCloud> for Marks {}
    impl GokoPlugin<SimCloud> for Tally {
        type NodeComponent = Marks;
        fn node_component(_: &Self, n: &goko::node::CoverNode<SimCloud>, _: &Reader) -> Option<Marks> {
            Some(Marks { n: n.coverage_count() })
        }
    }
    impl GokoPlugin<SimCloud> for Census {
        type NodeComponent = Counted;
        fn prepare_tree(_: &Self, w: &mut Writer) {
            w.add_plugin(Tally);
        }
        fn node_component(me: &Self, n: &goko::node::CoverNode<SimCloud>, r: &Reader) -> Option<Counted> {
            // what was attached in preparation is there, on this node and its children
            let here = n.get_plugin_and::<Marks, _, _>(|m| m.n);
            if here != Some(n.coverage_count()) {
                fail("plugin-missing", &format!("node {:?} has {:?} of the plugin attached in preparation", n.address(), here));
            }
            let mut below = n.singletons_len();
            let mut seen = 0;
            match n.children() {
                None => below += 1,
                Some((si, v)) => {
                    for a in std::iter::once((si, *n.center_index())).chain(v.iter().copied()) {
                        below += r.get_node_plugin_and::<Marks, _, _>(a, |m| m.n).unwrap_or(0);
                        seen += r.get_node_plugin_and::<Counted, _, _>(a, |m| m.seen + 1).unwrap_or(0);
                    }
                }
            }
            if n.coverage_count() < me.least {
                return None;
            }
            Some(Counted { below, seen, at: n.address() })
        }
    }

    fn own_points(s: &Snap, a: Addr) -> Vec<usize> {
        let n = &s.nodes[&a];
        let mut v = n.singles.clone();
        if n.nested.is_none() {
            v.push(a.1);
        }
        v
    }

    pub fn attach(w: &mut Writer, k: usize) {
        count(["label summaries attached", "metadata summaries attached", "coverage indexes attached", "diagonal gaussians attached", "dirichlet attached", "categorical attached", "own plugins attached", "singleton gaussians attached"][k]);
        match k {
            0 => w.generate_summaries(),
            1 => w.generate_meta_summaries(),
            2 => w.add_plugin(GokoCoverageIndexes::new()),
            3 => w.add_plugin(GokoDiagGaussian::recursive()),
            4 => w.add_plugin(GokoDirichlet::default()),
            5 => w.add_plugin(GokoCategorical {}),
            6 => w.add_plugin(Census { least: 1 + decide("least of the own plugin", 4) }),
            _ => w.add_plugin(GokoDiagGaussian::singletons()),
        }
    }

    pub fn tree_level(r: &Reader, k: usize) -> bool {
        match k {
            0 => r.get_plugin_and::<LabelSummaryPlugin, _, _>(|_| ()).is_some(),
            1 => r.get_plugin_and::<MetaSummaryPlugin, _, _>(|_| ()).is_some(),
            2 => r.get_plugin_and::<GokoCoverageIndexes, _, _>(|_| ()).is_some(),
            3 | 7 => r.get_plugin_and::<GokoDiagGaussian, _, _>(|_| ()).is_some(),
            4 => r.get_plugin_and::<GokoDirichlet, _, _>(|_| ()).is_some(),
            6 => r.get_plugin_and::<Census, _, _>(|_| ()).is_some(),
            _ => r.get_plugin_and::<GokoCategorical, _, _>(|_| ()).is_some(),
        }
    }

    fn close(a: f32, b: f64, mag: f64) -> bool {
        (a as f64 - b).abs() <= 1e-4 * mag + 1e-6
    }

    /// The points a prior counts: each child's share and the node's own.
    fn shares(s: &Snap, a: Addr) -> (Vec<(Addr, f64)>, f64) {
        let n = &s.nodes[&a];
        let mut v: Vec<(Addr, f64)> = n.all_children(a).iter().map(|c| (*c, s.under[c].len() as f64)).collect();
        v.sort_by_key(|x| x.0);
        let own = n.singles.len() as f64 + if n.nested.is_none() { 1.0 } else { 0.0 };
        (v, own)
    }

    fn check_shares(s: &Snap, a: Addr, total: f64, pv: Option<(Vec<(Addr, f64)>, f64)>, what: &str) {
        let (want, own) = shares(s, a);
        let sum = s.under[&a].len() as f64;
        if total != sum {
            fail("plugin-value", &format!("{} of node {:?} totals {}, the node covers {} points", what, a, total, sum));
        }
        let (have, hown) = match pv {
            Some(x) => x,
            None => fail("plugin-value", &format!("{} of node {:?} is empty", what, a)),
        };
        let ok = have.len() == want.len() && have.iter().zip(&want).all(|(x, y)| x.0 == y.0 && (x.1 - y.1 / sum).abs() < 1e-9) && (hown - own / sum).abs() < 1e-9;
        if !ok {
            fail("plugin-value", &format!("{} of node {:?} is {:?} and {}, its children cover {:?} and it holds {} itself", what, a, have, hown, want, own));
        }
    }

    /// Reads plugin `k` on a node; if present its value must be the recomputed one. Returns whether it is present.
    pub fn check_node(r: &Reader, s: &Snap, c: &SimCloud, k: usize, a: Addr) -> Option<bool> {
        let pts = &s.under[&a];
        match k {
            0 => {
                let v = r.get_node_label_summary(a)?;
                let mut want: BTreeMap<i64, usize> = BTreeMap::new();
                let mut nones = 0;
                for p in pts {
                    match c.raw_label(*p) {
                        Some(l) => *want.entry(l).or_insert(0) += 1,
                        None => nones += 1,
                    }
                }
                let have: BTreeMap<i64, usize> = v.summary.items.iter().map(|(l, n)| (*l, *n)).collect();
                if have.len() != v.summary.items.len() || have != want || v.nones != nones || v.errors != 0 || v.count() != pts.len() {
                    fail("plugin-value", &format!("label summary of node {:?} is {:?}, its points have {:?} and {} without label", a, v, want, nones));
                }
                Some(true)
            }
            1 => {
                let v = r.get_node_metasummary(a)?;
                let mut m1 = vec![0.0f32; 2];
                let mut m2 = vec![0.0f32; 2];
                let (mut n, mut nones) = (0, 0);
                for p in pts {
                    match c.raw_meta(*p) {
                        Some(x) => {
                            n += 1;
                            for i in 0..2 {
                                m1[i] += x[i];
                                m2[i] += x[i] * x[i];
                            }
                        }
                        None => nones += 1,
                    }
                }
                if n == 0 {
                    m1.clear();
                    m2.clear();
                }
                if v.summary.moment1 != m1 || v.summary.moment2 != m2 || v.summary.count != n || v.nones != nones || v.errors != 0 {
                    fail("plugin-value", &format!("metadata summary of node {:?} is {:?}, its points have {} vectors with {:?} {:?} and {} without", a, v, n, m1, m2, nones));
                }
                Some(true)
            }
            2 => {
                let mut v: Vec<usize> = r.get_node_plugin_and::<CoverageIndexes, _, _>(a, |p| p.point_indexes().to_vec())?;
                let mut want = pts.clone();
                v.sort();
                want.sort();
                if v != want {
                    fail("plugin-value", &format!("covered indexes of node {:?} are {:?}, the points below it are {:?}", a, v, want));
                }
                Some(true)
            }
            6 => {
                let least = r.get_plugin_and::<Census, _, _>(|p| p.least);
                let v = match r.get_node_plugin_and::<Counted, _, _>(a, |p| p.clone()) {
                    Some(v) => v,
                    // does not apply to small nodes
                    None => return least.filter(|l| pts.len() < *l).map(|_| false),
                };
                // how many nodes below carry it
                fn carriers(s: &Snap, a: Addr, least: usize) -> usize {
                    s.nodes[&a].all_children(a).iter().filter(|c| s.under[*c].len() >= least).map(|c| 1 + carriers(s, *c, least)).sum()
                }
                let known = least.map_or(true, |l| pts.len() >= l && v.seen == carriers(s, a, l));
                if v.at != a || v.below != pts.len() || !known {
                    fail("plugin-value", &format!("node {:?} covers {} points (least {:?}) and has {:?}", a, pts.len(), least, v));
                }
                Some(true)
            }
            3 | 7 => {
                let own;
                let pts = if k == 7 {
                    own = own_points(s, a);
                    &own
                } else {
                    pts
                };
                let v: DiagGaussian = r.get_node_plugin_and::<DiagGaussian, _, _>(a, |p| p.clone())?;
                if v.count != pts.len() {
                    fail("plugin-value", &format!("the gaussian of node {:?} counts {} of {} points", a, v.count, pts.len()));
                }
                let w = c.raw(a.1).v.len();
                let (mean, var) = (v.mean(), v.var());
                if v.moment1.len() != c.dim || v.moment2.len() != c.dim {
                    fail("plugin-value", &format!("the gaussian of node {:?} has dimension {}, the data {}", a, v.moment1.len(), c.dim));
                }
                for i in 0..w {
                    let (mut m1, mut m2, mut g) = (0.0f64, 0.0f64, 0.0f64);
                    for p in pts {
                        let x = c.raw(*p).v[i] as f64;
                        m1 += x;
                        m2 += x * x;
                        g += x.abs();
                    }
                    if !close(v.moment1[i], m1, g) || !close(v.moment2[i], m2, m2) {
                        fail("plugin-value", &format!("moments {} {} of coordinate {} at node {:?}, its points have {} {}", v.moment1[i], v.moment2[i], i, a, m1, m2));
                    }
                    let n = (pts.len() as f64).max(1.0);
                    if !close(mean[i], m1 / n, g / n) || !close(var[i], m2 / n - m1 / n * m1 / n, m2 / n) {
                        fail("plugin-value", &format!("mean {} and variance {} of coordinate {} at node {:?}, its points have {} {} over {}", mean[i], var[i], i, a, m1, m2, n));
                    }
                }
                Some(true)
            }
            4 => {
                let (t, pv) = r.get_node_plugin_and::<Dirichlet, _, _>(a, |p| (p.total(), p.prob_vector()))?;
                check_shares(s, a, t, pv, "dirichlet");
                Some(true)
            }
            _ => {
                let (t, pv) = r.get_node_plugin_and::<Categorical, _, _>(a, |p| (p.total(), p.prob_vector()))?;
                check_shares(s, a, t, pv, "categorical");
                Some(true)
            }
        }
    }

    pub fn check_all(r: &Reader, s: &Snap, c: &SimCloud, k: usize, when: &str) {
        for a in s.nodes.keys() {
            let present = check_node(r, s, c, k, *a).is_some();
            if !present {
                fail("plugin-missing", &format!("{}: node {:?} lacks plugin {}", when, a, k));
            }
        }
        if !tree_level(r, k) {
            fail("plugin-missing", &format!("{}: the tree lacks plugin {}", when, k));
        }
    }

    /// With a limit on the points per node: below the limit all of them, others nothing.
    pub fn check_restricted(r: &Reader, s: &Snap, max: usize) {
        for (a, pts) in &s.under {
            let v = r.get_node_plugin_and::<CoverageIndexes, _, _>(*a, |p| p.point_indexes().to_vec());
            match v {
                Some(mut v) => {
                    let mut want = pts.clone();
                    v.sort();
                    want.sort();
                    if v != want {
                        fail("plugin-value", &format!("covered indexes of node {:?} (limit {}) are {:?}, the points below it are {:?}", a, max, v, want));
                    }
                    if pts.len() > max {
                        fail("plugin-missing", &format!("node {:?} covers {} points, more than the limit of {}, but has them listed", a, pts.len(), max));
                    }
                }
                None => {
                    if pts.len() < max {
                        fail("plugin-missing", &format!("node {:?} covers {} points, less than the limit of {}, but has no list", a, pts.len(), max));
                    }
                }
            }
        }
    }
}

pub fn c10() {
    let mut x = world(Shape { max: 40, big: 5, wide: 0, min: 1 });
    let n = decide("watchers", 3);
    let done = Arc::new(std::sync::atomic::AtomicUsize::new(0));
    // the plugins in the order they are attached; each kind once
    let mut order: Vec<usize> = Vec::new();
    for _ in 0..1 + decide("plugins", 4) {
        let k = decide("plugin", plug::KINDS);
        // the two kinds of gaussian are one plugin
        if !order.contains(&k) && !(k == 7 && order.contains(&3)) && !(k == 3 && order.contains(&7)) {
            order.push(k);
        }
    }
    let ts: Vec<usize> = (0..n)
        .map(|i| {
            let r = x.w.reader();
            let (c, s) = (Arc::clone(&x.c), Arc::clone(&x.s));
            let done = Arc::clone(&done);
            let order = order.clone();
            simcore::spawn(&format!("watch{}", i), false, move || {
                let addrs: Vec<Addr> = s.nodes.keys().copied().collect();
                let mut budget = 60;
                while done.load(SeqCst) < order.len() && budget > 0 {
                    budget -= 1;
                    let k = order[decide("watch plugin", order.len())];
                    match decide("watch what", 4) {
                        0 => {
                            let finished = done.load(SeqCst);
                            let at = order.iter().position(|o| *o == k).unwrap();
                            if plug::tree_level(&r, k) || at < finished {
                                plug::check_all(&r, &s, &c, k, "seen at tree level");
                                count("plugin seen complete during the run");
                            }
                        }
                        1 => {
                            // plugins attached earlier stay
                            let finished = done.load(SeqCst);
                            for k in &order[..finished] {
                                let a = addrs[decide("watch node", addrs.len())];
                                if plug::check_node(&r, &s, &c, *k, a).is_none() {
                                    fail("plugin-missing", &format!("node {:?} lost plugin {} while another one was attached", a, k));
                                }
                            }
                        }
                        _ => {
                            let a = addrs[decide("watch node", addrs.len())];
                            if plug::check_node(&r, &s, &c, k, a).is_some() {
                                count("plugin seen on a node during the run");
                                for ch in s.nodes[&a].all_children(a) {
                                    // a plugin that is not on every node
                                    if k == 6 && !plug::tree_level(&r, k) {
                                        break;
                                    }
                                    if plug::check_node(&r, &s, &c, k, ch).is_none() {
                                        fail("plugin-missing", &format!("node {:?} shows plugin {} but its child {:?} does not yet", a, k, ch));
                                    }
                                }
                            }
                        }
                    }
                    simcore::step("watch");
                }
            })
        })
        .collect();
    let restricted = if !order.contains(&2) && flip("restricted coverage", 400) { Some(decide("coverage limit", x.c.n() + 2)) } else { None };
    for k in &order {
        plug::attach(&mut x.w, *k);
        plug::check_all(&x.w.reader(), &x.s, &x.c, *k, "attached");
        done.fetch_add(1, SeqCst);
        if flip("publish between", 300) {
            x.w.refresh();
        }
    }
    if let Some(max) = restricted {
        x.w.add_plugin(goko::plugins::utils::GokoCoverageIndexes::restricted(max));
        plug::check_restricted(&x.w.reader(), &x.s, max);
        count("restricted coverage indexes attached");
    }
    for t in ts {
        simcore::join(t);
    }
    for _ in 0..decide("publishes", 3) {
        x.w.refresh();
    }
    if flip("attach again", 250) {
        let k = order[decide("again", order.len())];
        // (one that then applies to fewer nodes would stay on the others)
        if k != 6 {
            plug::attach(&mut x.w, k);
            count("plugins attached again");
        }
    }
    let r = x.w.reader();
    for k in &order {
        plug::check_all(&r, &x.s, &x.c, *k, "at the end");
    }
    let mut s = snapshot(&r);
    s.check_structure(&x.c.idx);
    if s.nodes != x.s.nodes {
        fail("structure", "attaching plugins changed the tree's structure");
    }
}

// ---------------------------------------------------------------- C11

fn same<T: PartialEq + std::fmt::Debug>(what: &str, i: usize, a: &GokoResult<T>, b: &GokoResult<T>) {
    let ok = match (a, b) {
        (Ok(x), Ok(y)) => x == y,
        (Err(x), Err(y)) => format!("{:?}", x) == format!("{:?}", y),
        _ => false,
    };
    if !ok {
        fail("bulk", &format!("bulk {}: result {} is {:?}, asking alone gives {:?}", what, i, a, b));
    }
}

pub fn c11() {
    let mut x = world(Shape { max: 25, big: 0, wide: 10, min: 1 });
    let r = x.w.reader();
    let bulk = BulkInterface::new(x.w.reader());
    let c = Arc::clone(&x.c);
    // an input that always fails, wherever it is asked
    let persistent = flip("bad point", 300);
    let t = if flip("writer active", 500) {
        // the writer publishes while bulk queries run; it stays alive
        let World { w, c: c2, p, s } = x;
        let id = simcore::spawn("writer", false, move || {
            let mut w = w;
            let mut at = Vec::new();
            for _ in 0..3 {
                if persistent {
                    // plugins read the data too
                    w.refresh();
                } else {
                    writer_action(&mut w, &mut at);
                }
                simcore::step("writer");
            }
            std::mem::forget(w);
        });
        x = World { w: build(&c2, &p), c: c2, p, s };
        Some(id)
    } else {
        None
    };
    let len = match decide("bulk len", 6) {
        0 => decide("bulk few", 8),
        1 => 100,
        2 => 101,
        3 => 199 + decide("bulk edge", 3),
        4 => 0,
        _ => decide("bulk any", 350),
    };
    if persistent {
        c.set_fault(Fault::Index(decide("fault index", c.n())));
    }
    let chosen: Vec<usize> = (0..len)
        .map(|_| {
            let i = c.idx[decide("bulk index", c.n())];
            if flip("bulk unknown", 60) {
                i + 1_000_000_007
            } else {
                i
            }
        })
        .collect();
    let k = decide("k", 6);
    if flip("long list", 60) {
        // far more chunks than workers
        let n = [700, 1600, 2999][decide("long len", 3)];
        let long: Vec<usize> = (0..n).map(|i| c.idx[(i * 7) % c.n()] + i % 3).collect();
        let a = bulk.index_map_with_reader(&long, |r, i| (r.root_address(), i));
        let pts: Vec<&Pt> = (0..n).map(|i| &c.pts[(i * 13) % c.n()]).collect();
        let b = bulk.point_map_with_reader(&pts, |r, p| (r.root_address(), *p as *const Pt as usize));
        let root = r.root_address();
        if a.len() != n || !a.iter().zip(&long).all(|(x, i)| *x == (root, *i)) {
            fail("bulk", &format!("a bulk operation over {} indexes gives {} results, not one per input in their order", n, a.len()));
        }
        if b.len() != n || !b.iter().zip(&pts).all(|(x, p)| *x == (root, *p as *const Pt as usize)) {
            fail("bulk", &format!("a bulk operation over {} points gives {} results, not one per input in their order", n, b.len()));
        }
        let some = &long[..n.min(chosen.len() * 3)];
        let got = bulk.known_path_and(some, |r, p| (r.node_count(), p));
        if got.len() != some.len() {
            fail("bulk", &format!("{} results for {} inputs", got.len(), some.len()));
        }
        let nodes = r.node_count();
        for (i, (n, g)) in got.iter().enumerate() {
            if *n != nodes {
                fail("bulk", "a reader in a bulk query counts other nodes");
            }
            same("known_path", i, g, &r.known_path(some[i]));
        }
        count("long lists");
    }
    let same_q = |a: &GokoResult<Vec<(f32, Addr)>>, i: usize| same("known_path", i, a, &r.known_path(chosen[i]));
    match decide("bulk kind", 4) {
        0 => {
            let got = bulk.known_path(&chosen);
            if got.len() != len {
                fail("bulk", &format!("{} results for {} inputs", got.len(), len));
            }
            for (i, g) in got.iter().enumerate() {
                same_q(g, i);
            }
        }
        kind => {
            let qs: Vec<Pt> = (0..len).map(|i| if i % 7 == 3 { cloud::query(&c) } else { c.pts[(i * 31) % c.n()].clone() }).collect();
            let refs: Vec<&Pt> = qs.iter().collect();
            match kind {
                1 => {
                    let got = bulk.path(&refs);
                    if got.len() != len {
                        fail("bulk", &format!("{} results for {} inputs", got.len(), len));
                    }
                    for (i, g) in got.iter().enumerate() {
                        same("path", i, g, &r.path(&refs[i]));
                    }
                }
                2 => {
                    let got = bulk.knn(&refs, k);
                    if got.len() != len {
                        fail("bulk", &format!("{} results for {} inputs", got.len(), len));
                    }
                    for (i, g) in got.iter().enumerate() {
                        // ties may come out in any order
                        let d = |r: &GokoResult<Vec<(f32, usize)>>| r.as_ref().map(|v| v.iter().map(|x| x.0).collect::<Vec<f32>>()).map_err(|_| ());
                        if d(g) != d(&r.knn(&refs[i], k)) {
                            fail("bulk", &format!("bulk knn: result {} is {:?}, asking alone gives {:?}", i, g, r.knn(&refs[i], k)));
                        }
                        if let Ok(v) = g {
                            check_knn_over(&c, refs[i], k, v, &c.idx, "bulk knn");
                        }
                    }
                }
                _ => {
                    let got = bulk.routing_knn(&refs, k);
                    if got.len() != len {
                        fail("bulk", &format!("{} results for {} inputs", got.len(), len));
                    }
                    for (i, g) in got.iter().enumerate() {
                        let d = |r: &GokoResult<Vec<(f32, usize)>>| r.as_ref().map(|v| v.iter().map(|x| x.0).collect::<Vec<f32>>()).map_err(|_| ());
                        if d(g) != d(&r.routing_knn(&refs[i], k)) {
                            fail("bulk", &format!("bulk routing_knn: result {} is {:?}, asking alone gives {:?}", i, g, r.routing_knn(&refs[i], k)));
                        }
                    }
                }
            }
        }
    }
    if persistent {
        c.set_fault(Fault::None);
    }
    if let Some(t) = t {
        simcore::join(t);
    }
    drop(x);
}

/// Arrays of points, in any memory order.
pub fn c11_array() {
    use pointcloud::{DefaultCloud, L2};
    setup();
    let n = 1 + decide("data n", 30);
    let w = 1 + decide("data dim", 3);
    let data: Vec<f32> = cloud::coordinates(n, w).concat();
    let c = Arc::new(DefaultCloud::<L2>::new(data.clone(), w).unwrap());
    let tree = match Params::draw().builder().build(Arc::clone(&c)) {
        Ok(t) => t,
        Err(e) => fail("build-failed", &format!("{}", e)),
    };
    let r = tree.reader();
    let bulk = BulkInterface::new(tree.reader());
    let rows = [0, 1, n.min(5), 100, 101, 230][decide("rows", 6)];
    let flat: Vec<f32> = (0..rows * w).map(|i| data[(i * 7) % data.len()]).collect();
    use ndarray::{Array2, Axis, ShapeBuilder};
    let order = decide("array order", 3);
    let a: Array2<f32> = match order {
        0 => Array2::from_shape_vec((rows, w), flat).unwrap(),
        1 => Array2::from_shape_vec((rows, w).f(), flat).unwrap(),
        _ => Array2::from_shape_vec((rows, w), flat).unwrap(),
    };
    let mut view = a.view();
    if order == 2 {
        view.invert_axis(Axis(1));
        count("strided arrays");
    }
    if order == 1 {
        count("column major arrays");
    }
    let got = match catch_unwind(AssertUnwindSafe(|| bulk.array_map_with_reader(view, |r, p| (p.to_vec(), r.path(p))))) {
        Ok(g) => g,
        Err(e) => fail("panic", &format!("a bulk query over an array of {} rows (order {}) panicked: {}", rows, order, simcore::panic_text(&e))),
    };
    if got.len() != rows {
        fail("bulk", &format!("{} results for {} rows", got.len(), rows));
    }
    for (i, (p, g)) in got.iter().enumerate() {
        let row = view.row(i).to_vec();
        if *p != row {
            fail("bulk", &format!("row {} is {:?}, the query was given {:?}", i, row, p));
        }
        same("path", i, g, &r.path(&&row[..]));
    }
}

// ---------------------------------------------------------------- C20

pub fn c20() {
    setup();
    let c = Arc::new(cloud::make(Shape { max: 60, big: 250, wide: 500, min: 1 }));
    let threads = 1 + decide("askers", 2);
    let ts: Vec<usize> = (0..threads)
        .map(|t| {
            let c = Arc::clone(&c);
            simcore::spawn(&format!("asker{}", t), false, move || {
                for _ in 0..1 + decide("asks", 3) {
                    let len = match decide("list len", 4) {
                        0 => decide("list few", 6),
                        1 => 29 + decide("list edge", 4),
                        2 => 299 + decide("list edge", 4),
                        _ if flip("long list", 100) => [1000, 1999, 2800][decide("list long", 3)],
                        _ => decide("list any", 420),
                    };
                    let list: Vec<usize> = (0..len).map(|_| c.idx[decide("list index", c.n())]).collect();
                    if threads == 1 {
                        c.set_fault(match decide("fault kind", 4) {
                            0 | 1 => Fault::None,
                            2 => Fault::Nth(decide("fault at", len + 2) as u64),
                            _ => Fault::Index(decide("fault index", c.n())),
                        });
                    }
                    if len * c.dim < 20_000 && flip("moments or matrix", 250) {
                        sums(&c, &list);
                        continue;
                    }
                    let q = cloud::query(&c);
                    let by_index = flip("by index", 400);
                    let at = c.idx[decide("asker index", c.n())];
                    let r = catch_unwind(AssertUnwindSafe(|| if by_index { c.distances_to_point_index(at, &list) } else { c.distances_to_point(&&q, &list) }));
                    let hits = c.hits();
                    c.set_fault(Fault::None);
                    let r = match r {
                        Ok(r) => r,
                        Err(e) => fail("panic", &format!("asking for {} distances panicked: {}", len, simcore::panic_text(&e))),
                    };
                    let from = if by_index { c.raw(at) } else { &q };
                    match r {
                        Ok(d) => {
                            if hits > 0 {
                                fail("hidden-error", &format!("{} of {} accesses failed but distances were returned", hits, len));
                            }
                            if d.len() != len {
                                fail("distances", &format!("{} distances for {} indexes", d.len(), len));
                            }
                            for (i, x) in d.iter().enumerate() {
                                let t = dist(from, c.raw(list[i]));
                                if t.to_bits() != x.to_bits() {
                                    fail("distances", &format!("distance {} of {} is {}, the pair alone gives {}", i, len, x, t));
                                }
                            }
                            count("lists answered");
                        }
                        Err(e) => {
                            if hits == 0 {
                                fail("query-failed", &format!("no access failed, but asking for {} distances returned {}", len, e));
                            }
                            count("lists that returned an error");
                        }
                    }
                    observe_state(len as u64 + hits * 1000);
                }
            })
        })
        .collect();
    for t in ts {
        simcore::join(t);
    }
}

/// The moments or the dense matrix of a list.
fn sums(c: &SimCloud, list: &[usize]) {
    let what = decide("which sums", 3);
    let r = catch_unwind(AssertUnwindSafe(|| match what {
        0 => c.moment_1(list),
        1 => c.moment_2(list),
        _ => c.points_dense_matrix(list).map(|m| {
            if m.dim() != (list.len(), c.dim) {
                fail("sums", &format!("a matrix of {:?} for {} points of dimension {}", m.dim(), list.len(), c.dim));
            }
            m.iter().copied().collect()
        }),
    }));
    let hits = c.hits();
    c.set_fault(Fault::None);
    let got = match r {
        Ok(Ok(v)) => v,
        Ok(Err(e)) => {
            if hits == 0 {
                fail("query-failed", &format!("no access failed, but asking for sums over {} points returned {}", list.len(), e));
            }
            return;
        }
        Err(e) => fail("panic", &format!("asking for sums over {} points panicked: {}", list.len(), simcore::panic_text(&e))),
    };
    if hits > 0 {
        fail("hidden-error", &format!("{} of {} accesses failed but sums were returned", hits, list.len()));
    }
    if what == 2 {
        let want: Vec<f32> = list.iter().flat_map(|i| PointRef::dense_iter(&c.raw(*i))).collect();
        if got.len() != want.len() || !got.iter().zip(&want).all(|(x, y)| x.to_bits() == y.to_bits()) {
            fail("sums", &format!("the matrix of {} points has other values than the points", list.len()));
        }
    } else {
        if got.len() != c.dim {
            fail("sums", &format!("{} moments of points of dimension {}", got.len(), c.dim));
        }
        let (mut want, mut size) = (vec![0.0f64; c.dim], vec![0.0f64; c.dim]);
        for i in list {
            for (k, x) in PointRef::dense_iter(&c.raw(*i)).enumerate() {
                let x = if what == 0 { x as f64 } else { x as f64 * x as f64 };
                want[k] += x;
                size[k] += x.abs();
            }
        }
        for k in 0..c.dim {
            if (got[k] as f64 - want[k]).abs() > 1e-4 * size[k] + 1e-30 && size[k] < 1e30 {
                fail("sums", &format!("moment {} of coordinate {} over {} points is {}, it should be {}", what + 1, k, list.len(), got[k], want[k]));
            }
        }
    }
    count("moments and matrices compared");
}

/// Points with more coordinates than the chunk size allows for, and none at all.
pub fn c20_extreme() {
    setup();
    let mut c = cloud::make(Shape { max: 40, ..Default::default() });
    let pad = [300_000usize, 299_990, 400_000, 0][decide("extreme pad", 4)];
    if pad == 0 {
        c.dim = 0;
        for p in c.pts.iter_mut() {
            p.v.clear();
        }
    } else {
        c.dim += pad;
        for p in c.pts.iter_mut() {
            p.pad = pad;
        }
    }
    let list: Vec<usize> = (0..decide("list len", 40)).map(|_| c.idx[decide("list index", c.n())]).collect();
    let q = c.pts[0].clone();
    match catch_unwind(AssertUnwindSafe(|| c.distances_to_point(&&q, &list))) {
        Ok(Ok(d)) => {
            for (i, x) in d.iter().enumerate() {
                if x.to_bits() != dist(&q, c.raw(list[i])).to_bits() {
                    fail("distances", "wrong distance between very wide points");
                }
            }
            if d.len() != list.len() {
                fail("distances", "wrong number of distances between very wide points");
            }
        }
        Ok(Err(e)) => fail("query-failed", &format!("no access failed, but asking for distances returned {}", e)),
        Err(e) => fail("panic", &format!("asking for {} distances between points of dimension {} panicked: {}", list.len(), c.dim, simcore::panic_text(&e))),
    }
}
