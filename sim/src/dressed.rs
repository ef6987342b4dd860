//! Point clouds with other kinds of labels and metadata than SimCloud's own, some of which cannot be read (C10).
use crate::cloud::{self, Params, Pt, Shape, SimCloud, SimMetric};
use crate::tree::{brief, setup, snapshot, Addr, Snap};
use goko::plugins::labels::{LabelSummaryPlugin, MetaSummaryPlugin};
use goko::{CoverTreeReader, CoverTreeWriter};
use pointcloud::summaries::*;
use pointcloud::pc_errors::{PointCloudError, PointCloudResult};
use pointcloud::*;
use simcore::{count, decide, fail, flip};
use std::collections::BTreeMap;
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

/// A kind of summary: what it summarises, and what it must say about a list of that.
pub trait Kind: Summary {
    type Of: Clone + Send + Sync + 'static + std::fmt::Debug;
    fn of(x: &Self::Of) -> &Self::Label;
    fn draw() -> Self::Of;
    fn right(&self, over: &[&Self::Of]) -> bool;
}
impl Kind for FloatSummary {
    type Of = f64;
    fn of(x: &f64) -> &f64 {
        x
    }
    fn draw() -> f64 {
        (decide("float label", 17) as f64 - 8.0) / 4.0
    }
    fn right(&self, over: &[&f64]) -> bool {
        self.moment1 == over.iter().map(|x| **x).sum::<f64>() && self.moment2 == over.iter().map(|x| **x * **x).sum::<f64>() && self.count == over.len()
    }
}
impl Kind for IntSummary {
    type Of = i64;
    fn of(x: &i64) -> &i64 {
        x
    }
    fn draw() -> i64 {
        decide("int label", 2001) as i64 - 1000
    }
    fn right(&self, over: &[&i64]) -> bool {
        self.moment1 == over.iter().map(|x| **x).sum::<i64>() && self.moment2 == over.iter().map(|x| **x * **x).sum::<i64>() && self.count == over.len()
    }
}
fn tally<T: Ord + Clone>(over: &[&T]) -> BTreeMap<T, usize> {
    let mut m = BTreeMap::new();
    for x in over {
        *m.entry((*x).clone()).or_insert(0) += 1;
    }
    m
}
impl Kind for StringSummary {
    type Of = String;
    fn of(x: &String) -> &String {
        x
    }
    fn draw() -> String {
        ["", "a", "b", "ab", "A", "a ", "\u{e9}"][decide("string label", 7)].to_string()
    }
    fn right(&self, over: &[&String]) -> bool {
        self.items.iter().map(|(k, v)| (k.clone(), *v)).collect::<BTreeMap<_, _>>() == tally(over) && self.count() == over.len()
    }
}
impl Kind for CategorySummary {
    type Of = i64;
    fn of(x: &i64) -> &i64 {
        x
    }
    fn draw() -> i64 {
        decide("category label", 12) as i64 - 2
    }
    fn right(&self, over: &[&i64]) -> bool {
        self.items.len() == tally(over).len() && self.items.iter().copied().collect::<BTreeMap<_, _>>() == tally(over) && self.count() == over.len()
    }
}
impl Kind for VecSummary {
    type Of = Vec<f32>;
    fn of(x: &Vec<f32>) -> &[f32] {
        &x[..]
    }
    fn draw() -> Vec<f32> {
        (0..3).map(|_| (decide("vec label", 17) as f32 - 8.0) / 2.0).collect()
    }
    fn right(&self, over: &[&Vec<f32>]) -> bool {
        let sums = |f: fn(f32) -> f32| (0..3).map(|i| over.iter().map(|x| f(x[i])).sum::<f32>()).collect::<Vec<f32>>();
        let none = over.is_empty() && self.moment1.iter().chain(&self.moment2).all(|x| *x == 0.0);
        self.count == over.len() && (none || (self.moment1 == sums(|x| x) && self.moment2 == sums(|x| x * x)))
    }
}

/// What one point has: a value, nothing, or something that cannot be read.
type Item<K> = Option<Option<<K as Kind>::Of>>;
fn items<K: Kind>(n: usize) -> Vec<Item<K>> {
    let bad = [0, 0, 150, 500][decide("unreadable labels", 4)];
    (0..n)
        .map(|_| {
            if flip("label unreadable", bad) {
                count("fault label unreadable");
                None
            } else if flip("label absent", 200) {
                Some(None)
            } else {
                Some(Some(K::draw()))
            }
        })
        .collect()
}
pub struct Dressed<L: Kind, M: Kind> {
    base: SimCloud,
    labels: Vec<Item<L>>,
    metas: Vec<Item<M>>,
}
impl<L: Kind, M: Kind> Dressed<L, M> {
    fn look<'a, K: Kind>(&self, from: &'a [Item<K>], i: usize) -> PointCloudResult<Option<&'a K::Label>> {
        let p = self.base.access(i)?;
        match &from[p] {
            None => Err(PointCloudError::DataAccessError { index: i, reason: "unreadable".into() }),
            Some(x) => Ok(x.as_ref().map(K::of)),
        }
    }
}
impl<L: Kind, M: Kind> PointCloud for Dressed<L, M>
where
    L::Label: serde::Serialize,
    M::Label: serde::Serialize,
{
    type Point = Pt;
    type PointRef<'a> = &'a Pt;
    type Metric = SimMetric;
    type Label = L::Label;
    type LabelSummary = L;
    type Metadata = M::Label;
    type MetaSummary = M;
    fn metadata(&self, pn: usize) -> PointCloudResult<Option<&M::Label>> {
        self.look::<M>(&self.metas, pn)
    }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<M>> {
        let mut s = SummaryCounter::default();
        for i in pns {
            s.add(self.metadata(*i));
        }
        Ok(s)
    }
    fn label(&self, pn: usize) -> PointCloudResult<Option<&L::Label>> {
        self.look::<L>(&self.labels, pn)
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<L>> {
        let mut s = SummaryCounter::default();
        for i in pns {
            s.add(self.label(*i));
        }
        Ok(s)
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        self.base.name(pi)
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        self.base.index(pn)
    }
    fn names(&self) -> Vec<String> {
        self.base.names()
    }
    fn len(&self) -> usize {
        self.base.len()
    }
    fn is_empty(&self) -> bool {
        self.base.is_empty()
    }
    fn dim(&self) -> usize {
        self.base.dim()
    }
    fn reference_indexes(&self) -> Vec<usize> {
        self.base.reference_indexes()
    }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a Pt> {
        self.base.point(i)
    }
}

fn judge<K: Kind>(what: &str, a: Addr, got: &SummaryCounter<K>, c: &SimCloud, from: &[Item<K>], pts: &[usize]) {
    let mine: Vec<&Item<K>> = pts.iter().map(|i| &from[c.position(*i)]).collect();
    let errors = mine.iter().filter(|x| x.is_none()).count();
    let nones = mine.iter().filter(|x| matches!(x, Some(None))).count();
    let over: Vec<&K::Of> = mine.iter().filter_map(|x| x.as_ref()).filter_map(|x| x.as_ref()).collect();
    if got.errors() != errors || got.nones() != nones || !got.summary().right(&over) || got.count() != pts.len() {
        fail("plugin-value", &format!("{} summary of node {:?} is {:?}; below it are {} unreadable, {} without and {:?}", what, a, got, errors, nones, over));
    }
}

fn run<L: Kind, M: Kind>()
where
    L::Label: serde::Serialize,
    M::Label: serde::Serialize,
{
    setup();
    let base = cloud::make(Shape { max: 30, big: 0, wide: 0, min: 1 });
    let n = base.n();
    let c = Arc::new(Dressed::<L, M> { base, labels: items::<L>(n), metas: items::<M>(n) });
    let p = Params::draw();
    let mut w: CoverTreeWriter<Dressed<L, M>> = match p.builder().build(Arc::clone(&c)) {
        Ok(w) => w,
        Err(e) => fail("build-failed", &format!("no point is unreadable, but the build returned {}", e)),
    };
    let mut s = snapshot(&w.reader());
    s.check_structure(&c.base.idx);
    brief(&s);
    let s = Arc::new(s);
    let attached = Arc::new(AtomicUsize::new(0));
    // one look at a node: label and metadata summaries
    fn look<L: Kind, M: Kind>(r: &CoverTreeReader<Dressed<L, M>>, c: &Dressed<L, M>, s: &Snap, a: Addr, least: usize)
    where
        L::Label: serde::Serialize,
        M::Label: serde::Serialize,
    {
        let tree_level = (r.get_plugin_and::<LabelSummaryPlugin, _, _>(|_| ()).is_some(), r.get_plugin_and::<MetaSummaryPlugin, _, _>(|_| ()).is_some());
        let l = r.get_node_label_summary(a);
        if let Some(l) = &l {
            judge("label", a, l, &c.base, &c.labels, &s.under[&a]);
            for k in s.nodes[&a].all_children(a) {
                if r.get_node_label_summary(k).is_none() {
                    fail("plugin-order", &format!("node {:?} has a label summary and its child {:?} has none", a, k));
                }
            }
        }
        let m = r.get_node_metasummary(a);
        if let Some(m) = &m {
            judge("metadata", a, m, &c.base, &c.metas, &s.under[&a]);
            for k in s.nodes[&a].all_children(a) {
                if r.get_node_metasummary(k).is_none() {
                    fail("plugin-order", &format!("node {:?} has a metadata summary and its child {:?} has none", a, k));
                }
            }
        }
        if (l.is_none() && (tree_level.0 || least & 1 != 0)) || (m.is_none() && (tree_level.1 || least & 2 != 0)) {
            fail("plugin-missing", &format!("node {:?} lacks a summary that was attached", a));
        }
        if (least & 1 != 0 && !tree_level.0) || (least & 2 != 0 && !tree_level.1) {
            fail("plugin-missing", "the tree lacks a summary that was attached");
        }
        if l.is_some() && m.is_some() {
            count("both summaries seen during the run");
        }
    }
    let ts: Vec<usize> = (0..1 + decide("readers", 2))
        .map(|i| {
            let (r, c, s, at) = (w.reader(), Arc::clone(&c), Arc::clone(&s), Arc::clone(&attached));
            simcore::spawn(&format!("looker{}", i), false, move || {
                let all: Vec<Addr> = s.nodes.keys().copied().collect();
                for _ in 0..4 + decide("looks", 12) {
                    let least = at.load(SeqCst);
                    look(&r, &c, &s, all[decide("node", all.len())], least);
                }
            })
        })
        .collect();
    let first = decide("which summaries first", 2);
    for k in 0..2 + decide("summaries again", 2) {
        if (k + first) % 2 == 0 {
            w.generate_summaries();
            attached.fetch_or(1, SeqCst);
        } else {
            w.generate_meta_summaries();
            attached.fetch_or(2, SeqCst);
        }
        if flip("publish", 400) {
            w.refresh();
        }
    }
    for t in ts {
        simcore::join(t);
    }
    let r = w.reader();
    for a in s.nodes.keys() {
        look(&r, &c, &s, *a, 3);
    }
    if snapshot(&r).nodes != s.nodes {
        fail("structure", "attaching summaries changed the tree's structure");
    }
}

pub fn c10_kinds() {
    match decide("kinds of labels", 5) {
        0 => run::<FloatSummary, StringSummary>(),
        1 => run::<IntSummary, FloatSummary>(),
        2 => run::<StringSummary, CategorySummary>(),
        3 => run::<VecSummary, IntSummary>(),
        _ => run::<CategorySummary, VecSummary>(),
    }
}
