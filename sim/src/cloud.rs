//! The simulated data source: every access is a scheduling point and may fail. Also draws data sets and parameters.
use pointcloud::pc_errors::{PointCloudError, PointCloudResult};
use pointcloud::summaries::{CategorySummary, VecSummary};
use pointcloud::*;
use simcore::{chance, count, decide, flip};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};

/// A point: some coordinates followed by `pad` zeros.
#[derive(Debug, Clone, PartialEq)]
pub struct Pt {
    pub v: Vec<f32>,
    pub pad: usize,
}
pub struct PtIter<'a> {
    p: &'a Pt,
    i: usize,
}
impl<'a> Iterator for PtIter<'a> {
    type Item = f32;
    fn next(&mut self) -> Option<f32> {
        let r = if self.i < self.p.v.len() {
            Some(self.p.v[self.i])
        } else if self.i < self.p.v.len() + self.p.pad {
            Some(0.0)
        } else {
            None
        };
        self.i += 1;
        r
    }
}
impl<'a> PointRef for &'a Pt {
    type DenseIter = PtIter<'a>;
    fn dense_iter(&self) -> PtIter<'a> {
        PtIter { p: *self, i: 0 }
    }
}

/// Which metric this run uses: 0 L2, 1 L1, 2 L-infinity.
static METRIC: AtomicU64 = AtomicU64::new(0);
pub fn dist(x: &Pt, y: &Pt) -> f32 {
    let d = x.v.iter().zip(&y.v).map(|(a, b)| a - b);
    match METRIC.load(Relaxed) {
        0 | 1 => d.map(|x| x * x).sum::<f32>().sqrt(),
        2 => d.map(|x| x.abs()).sum(),
        _ => d.fold(0.0, |a, x| x.abs().max(a)),
    }
}
pub struct SimMetric;
impl Metric<Pt> for SimMetric {
    fn dist(x: &Pt, y: &Pt) -> f32 {
        dist(x, y)
    }
}

#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Fault {
    None,
    /// One access fails, the one with this number.
    Nth(u64),
    /// Every access from this number on fails.
    From(u64),
    /// The point at this position of the data cannot be read.
    Index(usize),
    /// Each access fails with this probability (per mille).
    Prob(usize),
}

#[derive(Debug)]
pub struct SimCloud {
    pub idx: Vec<usize>,
    pos: HashMap<usize, usize, fxhash::FxBuildHasher>,
    pub pts: Vec<Pt>,
    pub dim: usize,
    pub labels: Vec<Option<i64>>,
    pub metas: Vec<Option<Vec<f32>>>,
    stride: u64,
    reads: AtomicU64,
    hits: AtomicU64,
    fault: std::cell::Cell<Fault>,
    quiet: AtomicBool,
}
unsafe impl Sync for SimCloud {}

impl SimCloud {
    pub fn reads(&self) -> u64 {
        self.reads.load(Relaxed)
    }
    /// Injected failures so far.
    pub fn hits(&self) -> u64 {
        self.hits.load(Relaxed)
    }
    /// Starts counting anew with this plan of failures.
    pub fn set_fault(&self, f: Fault) {
        self.reads.store(0, Relaxed);
        self.hits.store(0, Relaxed);
        self.fault.set(f);
    }
    /// Accesses by the harness itself.
    pub fn quietly<T, F: FnOnce() -> T>(&self, f: F) -> T {
        let old = self.quiet.swap(true, Relaxed);
        let r = f();
        self.quiet.store(old, Relaxed);
        r
    }
    pub fn n(&self) -> usize {
        self.idx.len()
    }
    /// The same data without its last `k` points (at least one is left out of a non-empty cloud).
    pub fn without(&self, k: usize) -> SimCloud {
        let n = self.idx.len().saturating_sub(k);
        SimCloud {
            idx: self.idx[..n].to_vec(),
            pos: self.idx[..n].iter().enumerate().map(|(p, i)| (*i, p)).collect(),
            pts: self.pts[..n].to_vec(),
            dim: self.dim,
            labels: self.labels[..n].to_vec(),
            metas: self.metas[..n].to_vec(),
            stride: self.stride,
            reads: AtomicU64::new(0),
            hits: AtomicU64::new(0),
            fault: std::cell::Cell::new(Fault::None),
            quiet: AtomicBool::new(false),
        }
    }
    pub fn raw(&self, i: usize) -> &Pt {
        &self.pts[self.pos[&i]]
    }
    pub fn has(&self, i: usize) -> bool {
        self.pos.contains_key(&i)
    }
    pub fn position(&self, i: usize) -> usize {
        self.pos[&i]
    }
    pub fn raw_label(&self, i: usize) -> Option<i64> {
        self.labels[self.pos[&i]]
    }
    pub fn raw_meta(&self, i: usize) -> Option<&Vec<f32>> {
        self.metas[self.pos[&i]].as_ref()
    }
    pub(crate) fn access(&self, i: usize) -> PointCloudResult<usize> {
        let p = match self.pos.get(&i) {
            Some(p) => *p,
            None => return Err(PointCloudError::DataAccessError { index: i, reason: "no such index".into() }),
        };
        if self.quiet.load(Relaxed) {
            return Ok(p);
        }
        let n = self.reads.fetch_add(1, Relaxed);
        if n % self.stride == 0 {
            simcore::step("read point");
        }
        let bad = match self.fault.get() {
            Fault::None => false,
            Fault::Nth(k) => n == k,
            Fault::From(k) => n >= k,
            Fault::Index(k) => p == k,
            Fault::Prob(p) => chance("fault read", p),
        };
        if bad {
            self.hits.fetch_add(1, Relaxed);
            count("fault point access failed");
            return Err(PointCloudError::DataAccessError { index: i, reason: "injected".into() });
        }
        Ok(p)
    }
}

impl PointCloud for SimCloud {
    type Point = Pt;
    type PointRef<'a> = &'a Pt;
    type Metric = SimMetric;
    type Label = i64;
    type LabelSummary = CategorySummary;
    type Metadata = [f32];
    type MetaSummary = VecSummary;

    fn metadata(&self, pn: usize) -> PointCloudResult<Option<&[f32]>> {
        let p = self.access(pn)?;
        Ok(self.metas[p].as_ref().map(|v| &v[..]))
    }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<VecSummary>> {
        let mut s: SummaryCounter<VecSummary> = SummaryCounter::default();
        for i in pns {
            s.add(self.metadata(*i));
        }
        Ok(s)
    }
    fn label(&self, pn: usize) -> PointCloudResult<Option<&i64>> {
        let p = self.access(pn)?;
        Ok(self.labels[p].as_ref())
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<CategorySummary>> {
        let mut s: SummaryCounter<CategorySummary> = SummaryCounter::default();
        for i in pns {
            s.add(self.label(*i));
        }
        Ok(s)
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        self.access(pi)?;
        Ok(format!("p{}", pi))
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        pn.strip_prefix('p').and_then(|s| s.parse().ok()).filter(|i| self.pos.contains_key(i)).ok_or(PointCloudError::UnknownName)
    }
    fn names(&self) -> Vec<String> {
        self.idx.iter().map(|i| format!("p{}", i)).collect()
    }
    fn len(&self) -> usize {
        self.idx.len()
    }
    fn is_empty(&self) -> bool {
        self.idx.is_empty()
    }
    fn dim(&self) -> usize {
        self.dim
    }
    fn reference_indexes(&self) -> Vec<usize> {
        self.idx.clone()
    }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a Pt> {
        let p = self.access(i)?;
        Ok(&self.pts[p])
    }
}

#[derive(Clone, Copy, Default)]
pub struct Shape {
    /// Largest usual number of points.
    pub max: usize,
    /// Per mille of runs with more than 300 points (the parallel distance computation).
    pub big: usize,
    /// Per mille of runs with very wide points (it then sets in with fewer points).
    pub wide: usize,
    pub min: usize,
}

/// Coordinates of one data set.
pub fn coordinates(n: usize, w: usize) -> Vec<Vec<f32>> {
    let style = decide("data style", 10);
    let grid = [1.0f32, 0.5, 10.0, 0.001][decide("data scale", 4)];
    let mut out: Vec<Vec<f32>> = Vec::with_capacity(n);
    let centers = 1 + decide("data centers", 4);
    for i in 0..n {
        let v: Vec<f32> = match style {
            // a small integer grid with many ties and duplicates
            0 => (0..w).map(|_| decide("x", 4) as f32 * grid).collect(),
            // spread out
            1 => (0..w).map(|_| (decide("x", 2000) as f32 - 1000.0) * grid / 100.0).collect(),
            // clusters
            2 => {
                let c = decide("x", centers) as f32 * 100.0 * grid;
                (0..w).map(|_| c + decide("x", 7) as f32 * grid * 0.1).collect()
            }
            // on a line, increasing
            3 => (0..w).map(|_| i as f32 * grid).collect(),
            // exponentially spread
            4 => {
                let e = 2.0f32.powi(decide("x", 20) as i32 - 10);
                (0..w).map(|k| if k == 0 { e } else { decide("x", 2) as f32 * e }).collect()
            }
            // all the same
            5 => vec![3.0 * grid; w],
            // two values, one far away
            6 => vec![if flip("x", 100) { 1000.0 * grid } else { grid }; w],
            // copies of earlier points mixed with new ones
            7 => {
                if i > 0 && flip("x copy", 500) {
                    out[decide("x which", i)].clone()
                } else {
                    (0..w).map(|_| decide("x", 500) as f32 * grid * 0.01).collect()
                }
            }
            // a dense core and points far from everything
            9 => {
                let mut v: Vec<f32> = (0..w).map(|_| decide("x", 5) as f32 * grid * 0.01).collect();
                if flip("x far", 600) {
                    v[i % w] += (100.0 + (i / w) as f32 * 150.0) * grid * if flip("x side", 500) { 1.0 } else { -1.0 };
                }
                v
            }
            // powers of the scale: distances that fall exactly on layer boundaries
            _ => (0..w).map(|k| if k == 0 { [0.0, 1.0, 2.0, 4.0, 8.0, 0.5, 0.25, -2.0][decide("x", 8)] } else { 0.0 }).collect(),
        };
        out.push(v);
    }
    out
}

pub fn make(shape: Shape) -> SimCloud {
    let big = flip("data big", shape.big);
    let wide = !big && flip("data wide", shape.wide);
    let huge = big && shape.big >= 15 && flip("data huge", 60);
    if huge {
        simcore::more_steps(30);
    }
    let n = if huge {
        500 + decide("data n huge", 2000)
    } else if big {
        301 + decide("data n big", 120)
    } else if wide {
        31 + decide("data n wide", 30)
    } else {
        let m = match decide("data size", 4) {
            0 => shape.max,
            1 => shape.max.min(12),
            2 => shape.max.min(5),
            _ => shape.max,
        };
        if m >= 12 && flip("data middle", 30) {
            m * 2 + decide("data n middle", m * 2)
        } else {
            (1 + decide("data n", m.max(1))).max(shape.min)
        }
    };
    // in many dimensions nodes have many children and singletons
    let w = if !big && flip("data of many dimensions", 120) { 4 + decide("data dim", 30) } else { 1 + decide("data dim", 3) };
    let pad = if wide { 30_000 } else { 0 };
    let m = METRIC.load(Relaxed);
    if m == 0 {
        METRIC.store(decide("metric", 3) as u64 + 1, Relaxed);
    }
    let pts: Vec<Pt> = coordinates(n, w).into_iter().map(|v| Pt { v, pad }).collect();
    let mut idx: Vec<usize> = match decide("index style", 4) {
        0 | 1 => (0..n).collect(),
        2 => (0..n).map(|i| i * 3 + 7).collect(),
        _ => (0..n).map(|i| 1_000_000 + i * 2).collect(),
    };
    if flip("index shuffle", 200) {
        for i in (1..n).rev() {
            let j = decide("shuffle", i + 1);
            idx.swap(i, j);
        }
    }
    let pos = idx.iter().enumerate().map(|(p, i)| (*i, p)).collect();
    let kinds = 1 + decide("label kinds", 6);
    let labels = (0..n).map(|_| if flip("label none", 150) { None } else { Some(decide("label", kinds) as i64 - 1) }).collect();
    let metas = (0..n).map(|_| if flip("meta none", 150) { None } else { Some((0..2).map(|_| decide("meta", 9) as f32 - 4.0).collect()) }).collect();
    let stride = [1u64, 1, 3, 17][decide("read stride", 4)] * if huge { 100 } else if big || wide { 10 } else { 1 };
    count(if huge { "data sets over 500 points" } else if big { "data sets over 300 points" } else if wide { "data sets of very wide points" } else { "small data sets" });
    SimCloud { idx, pos, pts, dim: w + pad, labels, metas, stride, reads: AtomicU64::new(0), hits: AtomicU64::new(0), fault: std::cell::Cell::new(Fault::None), quiet: AtomicBool::new(false) }
}

/// Some failure for a stretch of work that makes about `expected` accesses.
pub fn draw_fault(expected: u64, n: usize) -> Fault {
    let e = expected.max(1).min(60_000) as usize;
    match decide("fault kind", 6) {
        0 => Fault::None,
        1 | 2 => Fault::Nth(decide("fault at", e) as u64),
        3 => Fault::From(decide("fault at", e) as u64),
        4 => Fault::Index(decide("fault index", n.max(1))),
        _ => Fault::Prob([5, 40, 300][decide("fault rate", 3)]),
    }
}

/// The parameters of a build.
#[derive(Clone, Debug)]
pub struct Params {
    pub scale_base: f32,
    pub leaf_cutoff: usize,
    pub min_res: i32,
    pub singletons: bool,
    pub first: bool,
    pub seed: Option<u64>,
}
impl Params {
    pub fn draw() -> Params {
        Params {
            scale_base: [2.0f32, 1.3, 1.6, 3.0, 2.0][decide("scale base", 5)],
            leaf_cutoff: [1usize, 0, 2, 5, 20][decide("leaf cutoff", 5)],
            min_res: [-10i32, -4, -1, 0, 2, -20][decide("min res", 6)],
            singletons: !flip("no singletons", 350),
            first: flip("partition first", 400),
            seed: if flip("no seed", 250) { None } else { Some(decide("seed", 5) as u64 * 7919) },
        }
    }
    /// The partition type can only be set in a configuration file.
    pub fn builder(&self) -> goko::CoverTreeBuilder {
        let mut b = if self.first || flip("builder from file", 200) {
            let path = format!("{}/params.yml", crate::runner::scratch());
            let seed = match self.seed {
                Some(s) => format!("rng_seed: {}\n", s),
                None => String::new(),
            };
            // a float in yaml needs its point
            let text = format!(
                "---\nscale_base: {:?}\nleaf_cutoff: {}\nmin_res_index: {}\nuse_singletons: {}\npartition_type: {}\nverbosity: 0\n{}",
                self.scale_base as f64, self.leaf_cutoff, self.min_res, self.singletons, if self.first { "first" } else { "nearest" }, seed
            );
            std::fs::write(&path, text).unwrap();
            let b = goko::CoverTreeBuilder::from_yaml(&path);
            std::fs::remove_file(&path).unwrap();
            count("builder configured from a file");
            b
        } else {
            let mut b = goko::CoverTreeBuilder::new();
            b.set_scale_base(self.scale_base).set_leaf_cutoff(self.leaf_cutoff).set_min_res_index(self.min_res).set_use_singletons(self.singletons);
            if let Some(s) = self.seed {
                b.set_rng_seed(s);
            }
            b
        };
        b.set_verbosity(if flip("verbose", 20) { 2 } else { 0 });
        b
    }
}

/// A point to ask about.
pub fn query(c: &SimCloud) -> Pt {
    let n = c.n();
    let base = c.pts[decide("query base", n)].clone();
    match decide("query style", 4) {
        0 => base,
        1 => {
            let mut p = base;
            for x in p.v.iter_mut() {
                *x += (decide("query off", 41) as f32 - 20.0) * 0.37;
            }
            p
        }
        2 => {
            let other = &c.pts[decide("query other", n)];
            let v = base.v.iter().zip(&other.v).map(|(a, b)| (a + b) / 2.0).collect();
            Pt { v, pad: base.pad }
        }
        _ => {
            let mut p = base;
            let far = [1000.0f32, -50.0, 0.001][decide("query far", 3)];
            for x in p.v.iter_mut() {
                *x = *x * 1.5 + far;
            }
            p
        }
    }
}
