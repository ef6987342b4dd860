//! Loading data and label files from the simulated disk (C21).
use crate::disk::disk;
use crate::tree::workers;
use crate::wmm;
use pointcloud::data_sources::{DataMemmap, DataRam};
use pointcloud::glued_data_cloud::HashGluedCloud;
use pointcloud::label_sources::{SmallIntLabels, VecLabels};
use pointcloud::loaders::*;
use pointcloud::pc_errors::PointCloudResult;
use pointcloud::summaries::{CategorySummary, VecSummary};
use pointcloud::{LabelSet, PointCloud, Summary, SummaryCounter, L2};
use simcore::{count, decide, fail, flip};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

type Bits = Vec<u32>;

/// A data file: its points, and what is really in it.
#[derive(Clone)]
struct Part {
    points: Vec<Vec<f32>>,
    bytes: Vec<u8>,
    /// The file does not hold a whole number of points, or is not there.
    broken: bool,
    missing: bool,
    directory: bool,
}
#[derive(Clone, Copy, Debug)]
struct Lab(Option<i64>);

fn value(finite: bool) -> f32 {
    match decide("value", 12) {
        0 => 0.0,
        1 => -0.0,
        2 if !finite => f32::NAN,
        3 if !finite => f32::INFINITY,
        4 if !finite => f32::from_bits(0x7fc0_1234),
        5 => f32::MIN_POSITIVE / 4.0,
        6 => 0.5,
        7 => f32::from_bits(0x3f00_0001),
        _ => decide("coordinate", 2000) as f32 / 16.0 - 60.0,
    }
}
fn bytes_of(points: &[Vec<f32>]) -> Vec<u8> {
    points.iter().flatten().flat_map(|x| x.to_le_bytes()).collect()
}
fn draw_part(dim: usize, n: usize, finite: bool) -> Part {
    let points: Vec<Vec<f32>> = (0..n).map(|_| (0..dim).map(|_| value(finite)).collect()).collect();
    Part { bytes: bytes_of(&points), points, broken: false, missing: false, directory: false }
}
fn draw_size() -> usize {
    match decide("size class", 12) {
        0 => 1,
        1 | 2 => 30 + decide("many", 60),
        3 => 400 + decide("pages", 400),
        _ => 1 + decide("points", 12),
    }
}
/// Damages a data file so that it no longer holds whole points.
fn damage(p: &mut Part, dim: usize) -> bool {
    match decide("file damage", 5) {
        0 => {
            p.missing = true;
            p.broken = true;
            count("fault file missing");
        }
        1 => {
            let n = 1 + decide("odd bytes", 3);
            p.bytes.extend(vec![63; n]);
            p.broken = true;
            count("fault size not a multiple");
        }
        2 if dim > 1 => {
            let n = 4 * (1 + decide("odd values", dim - 1));
            p.bytes.extend(vec![63; n]);
            p.broken = true;
            count("fault size not a multiple");
        }
        3 if !p.bytes.is_empty() => {
            let n = 1 + decide("cut bytes", p.bytes.len().min(60_000));
            let keep = p.bytes.len() - n;
            p.bytes.truncate(keep);
            p.broken = keep % (4 * dim) != 0;
            p.points.truncate(keep / (4 * dim));
            count("fault file truncated");
        }
        _ => {
            p.directory = true;
            p.broken = true;
            count("fault directory in its place");
        }
    }
    p.broken
}
fn place(path: &str, p: &Part) {
    if p.directory {
        disk().mkdirs(path);
    } else if !p.missing {
        disk().put(path, &p.bytes);
    }
}

// ---------------------------------------------------------------- files of labels

fn crc(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { (c >> 1) ^ 0xedb8_8320 } else { c >> 1 };
        }
    }
    !c
}
/// A gzip member with its content stored in blocks.
fn gz(b: &[u8]) -> Vec<u8> {
    let mut o = vec![0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 255];
    let mut chunks: Vec<&[u8]> = b.chunks(1 + decide("block", 3000)).collect();
    if chunks.is_empty() {
        chunks.push(&[]);
    }
    let last = chunks.len() - 1;
    for (k, c) in chunks.iter().enumerate() {
        o.push((k == last) as u8);
        o.extend((c.len() as u16).to_le_bytes());
        o.extend((!(c.len() as u16)).to_le_bytes());
        o.extend(*c);
    }
    o.extend(crc(b).to_le_bytes());
    o.extend((b.len() as u32).to_le_bytes());
    o
}
fn draw_label() -> i64 {
    match decide("label", 10) {
        0 => 0,
        1 => -1,
        2 => -(decide("negative", 5000) as i64),
        3 => i64::MAX - decide("large", 3) as i64,
        4 => i64::MIN,
        _ => decide("small", 6) as i64,
    }
}
/// A csv with this many rows: its bytes, the labels in the column and whether one of them is not a number.
fn csv(n: usize, index: usize, damage: bool) -> (Vec<u8>, Vec<Lab>, bool) {
    let columns = 1 + index + decide("more columns", 3);
    // a column beyond the last: nothing is labeled
    let absent = index > 0 && flip("no such column", 60);
    let columns = if absent { index } else { columns };
    let nl = if flip("crlf", 200) { "\r\n" } else { "\n" };
    let mut t = String::new();
    let cells = |f: &mut dyn FnMut(usize) -> String| (0..columns.max(1)).map(|i| f(i)).collect::<Vec<_>>().join(",");
    t += &cells(&mut |i| format!("c{}", i));
    t += nl;
    let masked = flip("some unlabeled", 600);
    // or just one of them, anywhere
    let single = if masked && n > 0 && flip("just one", 400) { Some(decide("which one", n)) } else { None };
    let bad = if damage && n > 0 && !absent { Some(decide("bad row", n)) } else { None };
    let mut labels = vec![];
    for row in 0..n {
        let mut v = draw_label();
        if (!masked || single.is_some()) && v < 0 {
            v = 7;
        }
        if single == Some(row) {
            v = -1 - decide("negative", 3) as i64;
        }
        labels.push(Lab(if absent || v < 0 { None } else { Some(v) }));
        t += &cells(&mut |i| {
            if i == index {
                if bad == Some(row) {
                    // (a line with nothing on it is no record)
                    return ["x", "1.5", "99999999999999999999", ""][decide("bad cell", if columns > 1 { 4 } else { 3 })].to_string();
                }
                v.to_string()
            } else {
                match decide("cell", 6) {
                    0 => "\"a,b\"".to_string(),
                    1 => "\"two\nlines\"".to_string(),
                    2 => "é".to_string(),
                    3 => "-3".to_string(),
                    _ => format!("{}", decide("text", 100)),
                }
            }
        });
        if row + 1 < n || flip("last newline", 700) {
            t += nl;
        }
    }
    if bad.is_some() {
        count("fault unreadable label");
    }
    (t.into_bytes(), labels, bad.is_some())
}
/// Packs a csv, perhaps in several members; with `damage` it does not unpack to its end.
fn pack(b: &[u8], damage: bool) -> Vec<u8> {
    let mut o = vec![];
    let members = 1 + if flip("several members", 250) { 1 + decide("members", 3) } else { 0 };
    let each = b.len() / members + 1;
    let parts: Vec<Vec<u8>> = b.chunks(each).map(gz).collect();
    if parts.len() > 1 {
        count("gzip files of several members");
    }
    let (last, before) = parts.split_last().unwrap();
    for p in before {
        o.extend(p);
    }
    let mut last = last.clone();
    if damage {
        if flip("cut", 700) {
            let n = 1 + decide("cut gzip", last.len() - 1);
            last.truncate(last.len() - n);
            count("fault gzip truncated");
        } else {
            // the stored check sum
            let n = last.len() - 8 + decide("check sum byte", 4);
            last[n] ^= 1 << decide("flip bit", 8);
            count("fault gzip check sum");
        }
    }
    o.extend(last);
    o
}

// ---------------------------------------------------------------- checks

fn bits(p: &[f32]) -> Bits {
    p.iter().map(|x| x.to_bits()).collect()
}
fn guard<T>(what: &str, f: impl FnOnce() -> T) -> T {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) => fail("panic", &format!("{} panicked ({} calls made to fail, last {}): {}", what, disk().failed, disk().last_failed, simcore::panic_text(&e))),
    }
}
/// Judges a load: what has to come out given what is in the files and which calls failed.
fn judge<T, E: std::fmt::Display>(what: &str, r: Result<T, E>, broken: bool, failed_before: u64) -> Option<T> {
    let faults = disk().failed - failed_before;
    simcore::observe_state(what.bytes().fold(r.is_ok() as u64 + faults * 7, |h, b| (h ^ b as u64).wrapping_mul(0x100_0000_01b3)));
    match r {
        Ok(t) => {
            if broken {
                fail("accepted", &format!("{}: the files cannot be presented as they are, but loading them returned a cloud", what));
            }
            if faults > 0 {
                count("loads that got through failed calls");
            }
            Some(t)
        }
        Err(e) => {
            if !broken && faults == 0 {
                fail("load-failed", &format!("{}: nothing is wrong, but loading returned {}", what, e));
            }
            count(if faults > 0 { "loads failed by the disk" } else { "loads refused" });
            None
        }
    }
}

fn check_points<D: PointCloud + for<'a> PointCloud<Point = [f32], PointRef<'a> = &'a [f32]>>(what: &str, c: &D, want: &[Vec<f32>], dim: usize, order: Option<&[usize]>) {
    let n = want.len();
    if c.len() != n || c.is_empty() != (n == 0) {
        fail("points", &format!("{}: {} points in the files, {} in the cloud (empty: {})", what, n, c.len(), c.is_empty()));
    }
    if c.dim() != dim {
        fail("points", &format!("{}: dimension {} became {}", what, dim, c.dim()));
    }
    let mut idx = c.reference_indexes();
    idx.sort_unstable();
    let mut all: Vec<usize> = order.map(|o| o.to_vec()).unwrap_or_else(|| (0..n).collect());
    let at = all.clone();
    all.sort_unstable();
    if idx != all {
        fail("points", &format!("{}: the reference indexes are not those of the points", what));
    }
    for (k, w) in want.iter().enumerate() {
        let i = at[k];
        match guard("point", || c.point(i).map(|p| bits(p))) {
            Ok(p) if p == bits(w) => {}
            Ok(p) => fail("points", &format!("{}: point {} is {:?}, in the file {:?}", what, i, p.iter().map(|b| f32::from_bits(*b)).collect::<Vec<_>>(), w)),
            Err(e) => fail("points", &format!("{}: point {} cannot be read: {}", what, i, e)),
        }
    }
    let top = all.last().map_or(0, |x| x + 1);
    for i in [top, top + 1 + decide("beyond", 1000), usize::MAX, (usize::MAX / dim.max(1)).saturating_add(1)] {
        if all.binary_search(&i).is_err() && guard("point beyond the end", || c.point(i).is_ok()) {
            fail("points", &format!("{}: there is a point {} of {}", what, i, n));
        }
    }
}
/// Names lead to points of that name; a name that only one point has leads to that point.
fn check_names<D: PointCloud>(what: &str, c: &D, all: &[usize], parts: &[usize]) {
    let mut names: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for i in all {
        match c.name(*i) {
            Ok(s) => names.entry(s).or_default().push(*i),
            Err(e) => fail("names", &format!("{}: point {} has no name: {}", what, i, e)),
        }
    }
    let mut listed = c.names();
    listed.sort();
    let mut expected: Vec<String> = names.iter().flat_map(|(n, v)| v.iter().map(move |_| n.clone())).collect();
    expected.sort();
    if listed != expected {
        fail("names", &format!("{}: the list of names is not that of the points' names", what));
    }
    let from = decide("names from", names.len().max(1).min(60_000));
    for (name, at) in names.iter().cycle().skip(from).take(40.min(names.len())) {
        match guard("index", || c.index(name)) {
            Ok(i) if at.contains(&i) => {}
            Ok(i) => fail("names", &format!("{}: the name {:?} of the points {:?} leads to {} (parts of {:?})", what, name, at, i, parts)),
            Err(e) => fail("names", &format!("{}: the name {:?} leads nowhere: {}", what, name, e)),
        }
    }
    for s in ["", "x", "-1", "1.0", "18446744073709551616"] {
        if guard("index", || c.index(s)).is_ok() {
            fail("names", &format!("{}: the name {:?} leads somewhere", what, s));
        }
    }
}
fn some_indexes(n: usize) -> Vec<usize> {
    (0..decide("summary of", 12)).map(|_| if n > 0 && !flip("beyond", 60) { decide("of", n.min(60_000)) } else { n + decide("beyond", 50) }).collect()
}
fn check_ints(what: &str, want: &[Lab], label: &dyn Fn(usize) -> PointCloudResult<Option<i64>>, sum: &dyn Fn(&[usize]) -> PointCloudResult<SummaryCounter<CategorySummary>>) {
    let get = |i: usize| want.get(i).and_then(|x| x.0);
    for i in 0..want.len() {
        match guard("label", || label(i)) {
            Ok(l) if l == get(i) => {}
            Ok(l) => fail("labels", &format!("{}: label {} is {:?}, in the file {:?}", what, i, l, get(i))),
            Err(e) => fail("labels", &format!("{}: label {} cannot be read: {}", what, i, e)),
        }
    }
    let pick = some_indexes(want.len());
    if let Ok(s) = guard("label summary", || sum(&pick)) {
        let mut m: BTreeMap<i64, usize> = BTreeMap::new();
        let mut nones = 0;
        for i in &pick {
            match get(*i) {
                Some(l) => *m.entry(l).or_default() += 1,
                None => nones += 1,
            }
        }
        let got: BTreeMap<i64, usize> = s.summary.items.iter().copied().collect();
        if got != m || s.nones + s.errors != nones || s.summary.items.len() != m.len() {
            fail("labels", &format!("{}: the summary of {:?} is {:?}, {} without; the labels are {:?}, {} without", what, pick, got, s.nones + s.errors, m, nones));
        }
    } else if pick.iter().all(|i| *i < want.len()) {
        fail("labels", &format!("{}: the labels of {:?} cannot be summarised", what, pick));
    }
}
fn check_vecs(what: &str, want: &[Vec<f32>], label: &dyn Fn(usize) -> PointCloudResult<Option<Bits>>, sum: &dyn Fn(&[usize]) -> PointCloudResult<SummaryCounter<VecSummary>>) {
    for (i, w) in want.iter().enumerate() {
        match guard("label", || label(i)) {
            Ok(Some(l)) if l == bits(w) => {}
            Ok(l) => fail("labels", &format!("{}: label {} is {:?}, in the file {:?}", what, i, l, bits(w))),
            Err(e) => fail("labels", &format!("{}: label {} cannot be read: {}", what, i, e)),
        }
    }
    let pick = some_indexes(want.len());
    if let Ok(s) = guard("label summary", || sum(&pick)) {
        let have = pick.iter().filter(|i| **i < want.len()).count();
        if s.summary.count() != have || s.nones + s.errors != pick.len() - have {
            fail("labels", &format!("{}: a summary of {:?} counts {} labels and {} without", what, pick, s.summary.count(), s.nones + s.errors));
        }
    } else if pick.iter().all(|i| *i < want.len()) {
        fail("labels", &format!("{}: the labels of {:?} cannot be summarised", what, pick));
    }
}

// ---------------------------------------------------------------- loads

struct Set {
    dir: String,
    dim: usize,
    parts: Vec<Part>,
    paths: Vec<String>,
}
impl Set {
    fn broken(&self) -> bool {
        self.parts.iter().any(|p| p.broken)
    }
    /// Nothing in a part is neither a fault nor a point: both answers are right.
    fn hollow(&self) -> bool {
        self.parts.iter().any(|p| !p.broken && p.bytes.is_empty())
    }
    fn points(&self) -> Vec<Vec<f32>> {
        self.parts.iter().flat_map(|p| p.points.iter().cloned()).collect()
    }
    fn files(&self) -> Vec<PathBuf> {
        self.paths.iter().map(PathBuf::from).collect()
    }
    fn sizes(&self) -> Vec<usize> {
        self.parts.iter().map(|p| p.points.len()).collect()
    }
}
fn draw_set(dir: &str, prefix: &str, dim: usize, sizes: &[usize], finite: bool, damaged: bool) -> Set {
    let mut parts: Vec<Part> = sizes.iter().map(|n| draw_part(dim, *n, finite)).collect();
    if damaged {
        let k = decide("damaged part", parts.len());
        damage(&mut parts[k], dim);
    }
    // the names sort differently as text than as numbers
    let mut paths: Vec<String> = (0..parts.len()).map(|k| format!("{}/{}_{}.dat", dir, prefix, k * 7 + 3)).collect();
    paths.sort();
    for (path, p) in paths.iter().zip(&parts) {
        place(path, p);
    }
    Set { dir: dir.to_string(), dim, parts, paths }
}
fn draw_dim() -> usize {
    match decide("dim class", 8) {
        0 => 1,
        1 => 20 + decide("wide", 300),
        _ => 1 + decide("dim", 6),
    }
}
fn draw_sizes() -> Vec<usize> {
    (0..1 + decide("parts", 4)).map(|_| draw_size()).collect()
}

fn release(what: &str) {
    if let Some(b) = disk().bad_unmap.take() {
        fail("leak", &format!("{}: {}", what, b));
    }
}

/// The judgement where a part without any content may go either way.
fn judge_set<T, E: std::fmt::Display>(what: &str, r: Result<T, E>, broken: bool, hollow: bool, before: u64) -> Option<T> {
    if hollow && !broken {
        if r.is_err() {
            count("loads refused");
        }
        return r.ok();
    }
    judge(what, r, broken, before)
}

fn one_memmap(s: &Set) {
    let k = decide("which file", s.parts.len());
    let (p, path) = (&s.parts[k], &s.paths[k]);
    let zero = flip("dimension 0", 20);
    let dim = if zero { 0 } else { s.dim };
    let before = disk().failed;
    let r = guard("DataMemmap::new", || DataMemmap::<L2>::new(dim, Path::new(path)));
    let what = format!("memory mapping {} bytes at dimension {}", p.bytes.len(), dim);
    let m = match judge_set(&what, r, p.broken || zero, p.bytes.is_empty(), before) {
        Some(m) => m,
        None => return,
    };
    let all: Vec<usize> = (0..p.points.len()).collect();
    check_points(&what, &m, &p.points, dim, None);
    check_names(&what, &m, &all, &s.sizes());
    match decide("then", 4) {
        3 => {
            // taken apart and put together again
            let at = decide("split", p.points.len() + 1);
            let flat = |q: &[Vec<f32>]| q.iter().flatten().copied().collect::<Vec<f32>>();
            let make = |v: Vec<f32>| guard("DataRam::new", || DataRam::<L2>::new(v, dim));
            match (make(flat(&p.points[..at])), make(flat(&p.points[at..]))) {
                (Ok(mut a), Ok(b)) => {
                    a.merge(b);
                    check_points("merged", &a, &p.points, dim, None);
                }
                _ => fail("points", "whole points are refused"),
            }
            let mut v = flat(&p.points);
            v.pop();
            let whole = dim == 1;
            if make(v).is_ok() != whole {
                fail("points", "data without its last value was accepted");
            }
        }
        0 => {
            let r = guard("convert_to_ram", || m.convert_to_ram());
            check_points("converted to ram", &r, &p.points, dim, None);
            check_names("converted to ram", &r, &all, &s.sizes());
        }
        1 => {
            let l = guard("convert_to_labels", || m.convert_to_labels());
            check_veclabels("converted to labels", &l, &p.points);
        }
        _ => {
            simcore::yield_now("holding a mapping");
            check_points("held", &m, &p.points, dim, None);
        }
    }
    release(&what);
}
fn check_veclabels(what: &str, l: &VecLabels, want: &[Vec<f32>]) {
    if l.len() != want.len() || l.is_empty() != want.is_empty() {
        fail("labels", &format!("{}: {} labels became {}", what, want.len(), l.len()));
    }
    check_vecs(what, want, &|i| l.label(i).map(|x| x.map(bits)), &|p| l.label_summary(p));
}

/// Rearranges a glued cloud, or fails to.
fn reindex(c: &mut HashGluedCloud<DataMemmap<L2>>, want: &[Vec<f32>], dim: usize) {
    let n = want.len();
    let mut to: Vec<usize> = (0..n).collect();
    for k in (1..n).rev() {
        to.swap(k, decide("shuffle", (k + 1).min(60_000)));
    }
    if flip("spread out", 300) {
        to.iter_mut().for_each(|x| *x = *x * 3 + 5);
    }
    let mut pairs: Vec<(usize, usize)> = to.iter().enumerate().map(|(a, b)| (a, *b)).collect();
    let bad = n > 1 && flip("bad indexes", 400);
    if bad {
        match decide("bad how", 4) {
            0 => pairs[0].1 = pairs[1].1,
            1 => pairs[0].0 = pairs[1].0,
            2 => pairs[0].0 = n + decide("beyond", 100),
            _ => {
                pairs.pop();
            }
        }
    }
    let r = guard("reindex", || c.reindex(&pairs));
    if bad {
        if r.is_ok() {
            fail("points", "reindexing with indexes that lose a point succeeded");
        }
        count("reindexing refused");
        check_points("after a refused reindexing", c, want, dim, None);
    } else {
        if let Err(e) = r {
            fail("points", &format!("reindexing {} points failed: {}", n, e));
        }
        check_points("reindexed", c, want, dim, Some(&to));
        check_names("reindexed", c, &to, &[]);
    }
}

fn glued(s: &Set) {
    let before = disk().failed;
    let r = guard("open_memmaps", || open_memmaps::<L2>(s.dim, &s.files()));
    let what = format!("{} files of {:?} points glued", s.parts.len(), s.sizes());
    let mut c = match judge_set(&what, r, s.broken(), s.hollow(), before) {
        Some(c) => c,
        None => return,
    };
    let want = s.points();
    check_points(&what, &c, &want, s.dim, None);
    check_names(&what, &c, &(0..want.len()).collect::<Vec<_>>(), &s.sizes());
    if flip("to ram", 400) {
        let r: DataRam<L2> = guard("convert_glued_memmap_to_ram", || convert_glued_memmap_to_ram(c));
        check_points("glued to ram", &r, &want, s.dim, None);
    } else if flip("reindex", 600) {
        reindex(&mut c, &want, s.dim);
        count("glued clouds reindexed");
    }
    release(&what);
}

fn glued_labeled(s: &Set, damaged: bool) {
    let ldim = 1 + decide("label dim", 5);
    let l = draw_set(&s.dir, "lab", ldim, &s.sizes(), true, damaged && flip("labels damaged", 400));
    let mut lp = l.files();
    let uneven = flip("one label file missing", 60);
    if uneven {
        lp.pop();
    }
    let before = disk().failed;
    let r = guard("open_labeled_memmaps", || open_labeled_memmaps::<L2>(s.dim, ldim, &s.files(), &lp));
    let what = format!("{} labeled files of {:?} points glued", s.parts.len(), s.sizes());
    let c = match judge_set(&what, r, s.broken() || l.broken() || uneven, s.hollow() || l.hollow() || l.sizes() != s.sizes(), before) {
        Some(c) => c,
        None => return,
    };
    let want = s.points();
    check_points(&what, &c, &want, s.dim, None);
    check_names(&what, &c, &(0..want.len()).collect::<Vec<_>>(), &s.sizes());
    // the labels belong to the points of their part, as many as there are in both
    let mut k = 0;
    for (p, q) in s.parts.iter().zip(&l.parts) {
        for j in 0..p.points.len() {
            let w = q.points.get(j).map(|v| bits(v));
            match guard("label", || c.label(k + j).map(|x| x.map(bits))) {
                Ok(g) if g == w => {}
                g => fail("labels", &format!("{}: label {} of part {:?} is {:?}, in the file {:?}", what, j, s.sizes(), g.ok(), w)),
            }
        }
        k += p.points.len();
    }
    let pick: Vec<usize> = (0..decide("summary of", 8)).map(|_| decide("of", k.max(1).min(60_000))).filter(|i| *i < k).collect();
    match guard("label summary", || c.label_summary(&pick)) {
        Ok(x) if x.count() == pick.len() => {}
        _ => fail("labels", &format!("{}: the summary of {:?} does not cover them", what, pick)),
    }
    release(&what);
}

struct LabelFiles {
    yaml: String,
    labels: Vec<Lab>,
    /// They cannot be loaded.
    broken: bool,
    /// They may be refused: there is nothing in one of them.
    hollow: bool,
}
/// Label files for so many points.
fn label_files(dir: &str, n: usize, damaged: bool) -> LabelFiles {
    let k = 1 + decide("label files", 3).min(n.saturating_sub(1));
    let mut sizes: Vec<usize> = vec![n / k; k];
    sizes[0] += n - n / k * k;
    let hurt = if damaged { Some(decide("damaged label file", k)) } else { None };
    let (mut broken, mut hollow) = (false, false);
    let mut put: Vec<(String, Part, Vec<Lab>)> = vec![];
    let kind = decide("label kind", 5);
    let index = decide("column", 3);
    let ldim = match kind {
        3 => 1,
        4 => 2 + decide("classes", 4),
        _ => 0,
    };
    for (j, m) in sizes.iter().enumerate() {
        let hit = hurt == Some(j);
        if kind <= 2 {
            let packed = kind == 1 || (kind == 2 && flip("packed", 500));
            let inner = hit && flip("damage inside", 500);
            let (text, labels, spoiled) = csv(*m, index, inner);
            let outer = hit && packed && !inner;
            broken |= spoiled || outer;
            let name = format!("{}/l_{}.csv{}", dir, j * 7 + 3, if packed { ".gz" } else { "" });
            let bytes = if packed { pack(&text, outer) } else { text };
            put.push((name, Part { points: vec![], bytes, broken: false, missing: false, directory: false }, labels));
            continue;
        }
        let mut p = draw_part(ldim, *m, true);
        if ldim > 1 && !flip("vague", 200) {
            for v in p.points.iter_mut() {
                let hot = decide("class", ldim + 1);
                for (x, y) in v.iter_mut().enumerate() {
                    *y = (x == hot) as u8 as f32;
                }
            }
            p.bytes = bytes_of(&p.points);
        }
        if hit && *m > 0 {
            damage(&mut p, ldim);
        }
        if p.missing && k > 1 {
            // a pattern cannot tell that a file is missing
            p.missing = false;
            p.bytes = vec![1];
        }
        broken |= p.broken;
        hollow |= !p.broken && p.bytes.is_empty();
        let labels = p.points.iter().map(|v| Lab(if ldim == 1 { Some((v[0] > 0.5) as i64) } else { v.iter().position(|x| *x > 0.5).map(|x| x as i64) })).collect();
        put.push((format!("{}/l_{}.dat", dir, j * 7 + 3), p, labels));
    }
    // the files are taken in the order of their names
    put.sort_by(|a, b| a.0.cmp(&b.0));
    for (name, p, _) in &put {
        place(name, p);
    }
    let pattern = if put.len() == 1 && flip("exact name", 500) { put[0].0[dir.len() + 1..].to_string() } else { ["l_*", "L_*", "l_*.*"][decide("pattern", 3)].to_string() };
    let pattern = if flip("absolute", 400) { format!("{}/{}", dir, pattern) } else { pattern };
    let mut yaml = format!("labels_path: \"{}\"\n", pattern);
    if kind <= 2 {
        yaml += &format!("labels_index: {}\n", index);
        if flip("both given", 100) {
            yaml += "labels_dim: 3\n";
        }
    } else {
        yaml += &format!("labels_dim: {}\n", ldim);
    }
    let labels = put.into_iter().flat_map(|x| x.2).collect();
    LabelFiles { yaml, labels, broken, hollow }
}

fn yaml_data(s: &Set) -> String {
    let pattern = if s.paths.len() == 1 && flip("exact name", 500) { s.paths[0][s.dir.len() + 1..].to_string() } else { ["d_*.dat", "D_*.DAT", "d_*"][decide("pattern", 3)].to_string() };
    let pattern = if flip("absolute", 400) { format!("{}/{}", s.dir, pattern) } else { pattern };
    format!("data_path: \"{}\"\ndata_dim: {}\n", pattern, s.dim)
}
/// A missing file goes unnoticed by a pattern that matches the others.
fn yaml_set(s: &mut Set) {
    for (p, path) in s.parts.iter_mut().zip(&s.paths) {
        if p.missing {
            p.missing = false;
            p.bytes = vec![1];
            disk().put(path, &p.bytes);
        }
    }
    if flip("other files", 500) {
        disk().put(&format!("{}/other.dat", s.dir), &[1, 2, 3]);
        disk().put(&format!("{}/notes.txt", s.dir), b"d_1.dat");
    }
}
/// Writes the configuration, perhaps unusable. True: it cannot be used.
fn config(dir: &str, text: String, keys: &[&str]) -> (String, bool) {
    let path = format!("{}/set.yml", dir);
    let bad = flip("bad configuration", 120);
    if !bad {
        disk().put(&path, format!("---\n{}", text).as_bytes());
        return (path, false);
    }
    count("fault unusable configuration");
    match decide("bad configuration how", 8) {
        0 => {}
        1 => disk().put(&path, b""),
        2 => disk().put(&path, b"\xff\xfe not text"),
        3 => disk().put(&path, b"a: [unclosed\nb: }"),
        4 => disk().put(&path, b"- just\n- a list\n"),
        k => {
            let key = keys[decide("key", keys.len())];
            let t: String = text
                .lines()
                .filter_map(|l| {
                    if !l.starts_with(&format!("{}:", key)) {
                        return Some(format!("{}\n", l));
                    }
                    match k {
                        5 => None,
                        6 => Some(format!("{}: [1, 2]\n", key)),
                        _ if key.ends_with("path") => Some(format!("{}: nothing_*.here\n", key)),
                        // (there is a column 0)
                        _ => Some(format!("{}: {}\n", key, ["-3", "many", "0"][decide("bad value", if key == "labels_index" { 2 } else { 3 })])),
                    }
                })
                .collect();
            disk().put(&path, t.as_bytes());
        }
    }
    (path, true)
}

fn from_yaml(dir: &str, damaged: bool) {
    let dim = draw_dim();
    let which = decide("yaml loader", 6);
    let tree = which >= 4;
    let sizes: Vec<usize> = if tree { (0..1 + decide("parts", 3)).map(|_| 1 + decide("points", 12)).collect() } else { draw_sizes() };
    let mut s = draw_set(dir, "d", dim, &sizes, tree, damaged && flip("data damaged", 500));
    yaml_set(&mut s);
    let want = s.points();
    let mut text = yaml_data(&s);
    match which {
        0 => {
            let (path, bad) = config(dir, text, &["data_path", "data_dim"]);
            let before = disk().failed;
            let r = guard("ram_from_yaml", || ram_from_yaml::<_, L2>(&path));
            let what = format!("data of {:?} points from yaml", s.sizes());
            if let Some(c) = judge_set(&what, r, s.broken() || bad, s.hollow(), before) {
                check_points(&what, &c, &want, dim, None);
                check_names(&what, &c, &(0..want.len()).collect::<Vec<_>>(), &s.sizes());
            }
        }
        1 => {
            let LabelFiles { yaml: y, labels, broken, hollow } = label_files(dir, draw_size(), damaged);
            let key = if y.contains("labels_index") { "labels_index" } else { "labels_dim" };
            let (path, bad) = config(dir, text + &y, &["labels_path", key]);
            let before = disk().failed;
            let r = guard("labels_from_yaml", || labels_from_yaml(&path));
            let what = format!("{} labels from yaml ({})", labels.len(), y.replace('\n', ", "));
            if let Some(l) = judge_set(&what, r, broken || bad, hollow, before) {
                check_intlabels(&what, &l, &labels);
            }
        }
        2 | 5 => {
            let n = want.len();
            let LabelFiles { yaml: y, labels, broken, hollow } = label_files(dir, n, damaged);
            // labels for some of the points only may be refused
            let hollow = hollow || labels.len() != n || s.hollow();
            text += &y;
            let key = if y.contains("labels_index") { "labels_index" } else { "labels_dim" };
            let what = format!("{} labeled points from yaml ({})", n, y.replace('\n', ", "));
            let check = |c: &pointcloud::DefaultLabeledCloud<L2>| {
                check_points(&what, c, &want, dim, None);
                check_names(&what, c, &(0..want.len()).collect::<Vec<_>>(), &s.sizes());
                check_ints(&what, &labels, &|i| c.label(i).map(|x| x.copied()), &|p| c.label_summary(p));
            };
            if which == 2 {
                let (path, bad) = config(dir, text, &["data_path", "data_dim", "labels_path", key]);
                let before = disk().failed;
                let r = guard("labeled_ram_from_yaml", || labeled_ram_from_yaml::<_, L2>(&path));
                if let Some(c) = judge_set(&what, r, s.broken() || broken || bad, hollow, before) {
                    check(&c);
                }
            } else {
                let (t, wrong) = tree_yaml(n);
                text += &t;
                let (path, bad) = config(dir, text, &["data_path", "data_dim", "labels_path", key]);
                let before = disk().failed;
                let r = guard("cover_tree_from_labeled_yaml", || goko::utils::cover_tree_from_labeled_yaml(&path));
                if let Some(w) = judge_set(&what, r, s.broken() || broken || bad || wrong, hollow || n == 0, before) {
                    let r = w.reader();
                    check(r.point_cloud());
                    check_tree(&what, &r, &t, n);
                }
            }
        }
        3 => {
            let ldim = 1 + decide("label dim", 5);
            let mut l = draw_set(dir, "lab", ldim, &[want.len().max(1)], true, damaged && flip("labels damaged", 500));
            yaml_set(&mut l);
            text += &format!("labels_path: {}\nlabels_dim: {}\n", ["lab_*.dat", "lab_3.dat", "lab_?.dat"][decide("pattern", 3)], ldim);
            {
                let (path, bad) = config(dir, text, &["data_path", "data_dim", "labels_path", "labels_dim"]);
                let before = disk().failed;
                let r = guard("vec_labeled_ram_from_yaml", || vec_labeled_ram_from_yaml::<_, L2>(&path));
                let what = format!("{} vector labeled points from yaml", want.len());
                if let Some(c) = judge_set(&what, r, s.broken() || l.broken() || bad, s.hollow() || l.hollow() || l.points().len() != want.len(), before) {
                    check_points(&what, &c, &want, dim, None);
                    check_vecs(&what, &l.points(), &|i| c.label(i).map(|x| x.map(bits)), &|p| c.label_summary(p));
                }
            }
        }
        _ => {
            let n = want.len();
            let (t, wrong) = tree_yaml(n);
            text += &t;
            let (path, bad) = config(dir, text, &["data_path", "data_dim"]);
            let what = format!("a tree of {:?} points from yaml", s.sizes());
            let before = disk().failed;
            let r = guard("cover_tree_from_yaml", || goko::utils::cover_tree_from_yaml(&path));
            if let Some(w) = judge_set(&what, r, s.broken() || bad || wrong, s.hollow() || n == 0, before) {
                let r = w.reader();
                check_points(&what, &**r.point_cloud(), &want, dim, None);
                check_tree(&what, &r, &t, n);
            }
        }
    }
    release("yaml");
}
/// Settings of a tree, perhaps with a number of points that is not right.
fn tree_yaml(n: usize) -> (String, bool) {
    let mut t = format!(
        "verbosity: 0\nscale_base: {}\nleaf_cutoff: {}\nmin_res_index: {}\nuse_singletons: {}\npartition_type: {}\nrng_seed: {}\n",
        ["1.5", "2.0", "1.3"][decide("scale", 3)],
        decide("leaf cutoff", 6),
        -(decide("resolution", 12) as i64),
        flip("singletons", 500),
        ["first", "nearest"][decide("partition", 2)],
        decide("rng", 100)
    );
    let mut wrong = false;
    if flip("count given", 500) {
        wrong = flip("wrong count", 250);
        t += &format!("count: {}\n", if wrong { n + 1 + decide("off", 3) } else { n });
        if wrong {
            count("fault wrong count");
        }
    }
    (t, wrong)
}
fn check_tree<D: PointCloud>(what: &str, r: &goko::CoverTreeReader<D>, yaml: &str, n: usize) {
    let p = r.parameters();
    let got = format!(
        "scale_base: {}, leaf_cutoff: {}, min_res_index: {}, use_singletons: {}, partition_type: {}",
        p.scale_base,
        p.leaf_cutoff,
        p.min_res_index,
        p.use_singletons,
        if matches!(p.partition_type, goko::PartitionType::First) { "first" } else { "nearest" }
    );
    let want = yaml.lines().skip(1).take(5).collect::<Vec<_>>().join(", ").replace("2.0,", "2,");
    if got != want {
        fail("tree", &format!("{}: built with {} instead of {}", what, got, want));
    }
    for i in 0..n {
        if let Err(e) = r.known_path(i) {
            fail("tree", &format!("{}: point {} is not in the tree: {}", what, i, e));
        }
    }
}

fn check_intlabels(what: &str, l: &SmallIntLabels, want: &[Lab]) {
    if l.len() != want.len() || l.is_empty() != want.is_empty() {
        fail("labels", &format!("{}: {} labels in the files, {} loaded", what, want.len(), l.len()));
    }
    check_ints(what, want, &|i| l.label(i).map(|x| x.copied()), &|p| l.label_summary(p));
}

fn one_csv(dir: &str, damaged: bool) {
    let index = decide("column", 3);
    let n = match decide("rows", 5) {
        0 => 0,
        _ => draw_size(),
    };
    let inner = damaged && n > 0 && flip("damage inside", 500);
    let (text, labels, spoiled) = csv(n, index, inner);
    let packed = flip("packed", 500);
    let outer = damaged && packed && !inner;
    let bytes = if packed { pack(&text, outer) } else { text };
    let path = format!("{}/{}", dir, if packed { "x.csv.gz" } else { ["x.csv", "labels", "x.txt"][decide("csv name", 3)] });
    let absent = damaged && flip("csv missing", 100);
    if !absent {
        disk().put(&path, &bytes);
    }
    let before = disk().failed;
    let r = guard("open_int_csv", || open_int_csv(&path, index));
    let what = format!("a csv of {} rows, column {}, {}", n, index, if packed { "packed" } else { "plain" });
    if let Some(l) = judge(&what, r, spoiled || outer || absent, before) {
        check_intlabels(&what, &l, &labels);
    }
}

fn one_load(dir: &str) {
    let damaged = flip("damaged", 300);
    match decide("load", 8) {
        0 | 1 => {
            let s = draw_set(dir, "d", draw_dim(), &draw_sizes(), false, damaged);
            one_memmap(&s);
        }
        2 | 3 => {
            let s = draw_set(dir, "d", draw_dim(), &draw_sizes(), false, damaged);
            glued(&s);
        }
        4 => {
            let s = draw_set(dir, "d", draw_dim(), &draw_sizes(), false, damaged && flip("data damaged", 600));
            glued_labeled(&s, damaged);
        }
        5 => one_csv(dir, damaged),
        _ => from_yaml(dir, damaged),
    }
}

pub fn c21() {
    wmm::install(false, 0);
    workers();
    let tasks = if flip("several loaders", 250) { 2 + decide("loaders", 2) } else { 1 };
    disk().faults.benign = flip("rough transfers", 600);
    let hard = decide("disk failures", 3);
    if hard == 1 {
        disk().faults.errors = 5 + decide("per mille", 120);
    }
    let work = move |t: usize| {
        for k in 0..1 + decide("loads", 3) {
            if hard == 2 {
                disk().faults.fail_at = Some(disk().ops + 1 + decide("failing call", 60) as u64);
            }
            one_load(&format!("/sim/data/t{}_{}", t, k));
            if tasks == 1 {
                all_released();
            }
        }
    };
    if tasks == 1 {
        work(0);
    } else {
        count("runs with several loaders");
        let ids: Vec<usize> = (0..tasks).map(|t| simcore::spawn(&format!("loader{}", t), false, move || work(t))).collect();
        for i in ids {
            simcore::join(i);
        }
        all_released();
    }
}
fn all_released() {
    if disk().open_maps() != 0 || disk().open_fds() != 0 {
        fail("leak", &format!("after everything was dropped {} mappings and {} open files are left", disk().open_maps(), disk().open_fds()));
    }
    if let Some(b) = disk().bad_unmap.take() {
        fail("leak", &b);
    }
}
