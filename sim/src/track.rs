//! Windowed trackers and the baselines trained from them (C19, C24).
use crate::cloud::{self, Fault, Params, Shape, SimCloud};
use crate::tree::{build, reloaded, setup, snapshot, workers, writer_action, Addr, Reader, Snap, Writer};
use goko::plugins::discrete::prelude::{DirichletBaseline, GokoDirichlet, KLDivergenceBaselineStats};
use goko::plugins::discrete::tracker::BayesCategoricalTracker;
use simcore::{count, decide, fail, flip, observe_state};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering::SeqCst};
use std::sync::Arc;

pub type Tracker = BayesCategoricalTracker<SimCloud>;
pub type Path = Vec<(f32, Addr)>;

/// What a tracker has to hold: where the paths went at every node.
#[derive(Default, Clone, PartialEq, Debug)]
struct Here {
    on: BTreeMap<Addr, u64>,
    end: u64,
}
fn evidence(paths: &[Path]) -> BTreeMap<Addr, Here> {
    let mut m: BTreeMap<Addr, Here> = BTreeMap::new();
    for p in paths {
        for w in p.windows(2) {
            *m.entry(w[0].1).or_default().on.entry(w[1].1).or_default() += 1;
        }
        m.entry(p.last().unwrap().1).or_default().end += 1;
    }
    m
}

pub fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs())) || (a.is_nan() && b.is_nan())
}

/// The statistics as one comparable list.
pub fn numbers(t: &Tracker) -> Vec<f64> {
    let s = t.kl_div_stats();
    vec![t.kl_div(), s.max, s.min, s.nz_count as f64, s.moment1_nz, s.moment2_nz, s.sequence_len as f64]
}
pub fn fresh(r: &Reader, window: usize, paths: &[Path]) -> Tracker {
    let mut t = BayesCategoricalTracker::new(window, r.clone());
    for p in paths {
        t.add_path(p.clone());
    }
    t
}
/// Divergences that are zero up to rounding may fall on either side of the threshold above which they count.
pub fn shaky(t: &Tracker) -> bool {
    t.all_node_kl().iter().any(|(k, _)| *k > 1e-12 && *k < 1e-8)
}

fn check_evidence(t: &Tracker, want: &[Path], when: &str) {
    if t.sequence_len() != want.len() {
        fail("sequence", &format!("{}: the tracker says it holds {} paths, there are {}", when, t.sequence_len(), want.len()));
    }
    let m = evidence(want);
    let got = t.running_evidence();
    for (a, _) in got.iter() {
        if !m.contains_key(a) {
            fail("evidence", &format!("{}: evidence remains for node {:?}, which no path in the window touches", when, a));
        }
    }
    for (a, h) in &m {
        let e = match got.get(a) {
            Some(e) => e,
            None => fail("evidence", &format!("{}: no evidence for node {:?}", when, a)),
        };
        let total = h.on.values().sum::<u64>() + h.end;
        if !close(e.total(), total as f64) {
            fail("evidence", &format!("{}: {} observations at node {:?}, there were {}", when, e.total(), a, total));
        }
        let (v, end) = match t.evidence_prob_vector(*a) {
            Some(x) => x,
            None => fail("evidence", &format!("{}: no probabilities at node {:?}", when, a)),
        };
        let got: BTreeMap<Addr, u64> = v.iter().map(|(c, p)| (*c, (p * total as f64).round() as u64)).collect();
        if got != h.on || v.len() != got.len() || (end * total as f64).round() as u64 != h.end {
            fail("evidence", &format!("{}: node {:?} has {:?} and {} ending, the paths have {:?} and {}", when, a, v, end, h.on, h.end));
        }
    }
}

/// Compares with a tracker that only ever saw the paths still in the window.
fn check_replay(t: &Tracker, r: &Reader, window: usize, want: &[Path], s: &Snap, when: &str) -> Option<String> {
    let f = fresh(r, window, want);
    if !shaky(&f) {
        let (a, b) = (numbers(t), numbers(&f));
        if !a.iter().zip(&b).all(|(x, y)| close(*x, *y)) {
            return Some(format!("{}: statistics {:?}, recomputed {:?}", when, a, b));
        }
    }
    let kl = |t: &Tracker| t.all_node_kl().into_iter().map(|(k, a)| (a, k)).collect::<BTreeMap<_, _>>();
    let (a, b) = (kl(t), kl(&f));
    if a.len() != b.len() || !a.iter().zip(&b).all(|(x, y)| x.0 == y.0 && close(*x.1, *y.1)) {
        return Some(format!("{}: divergences {:?}, recomputed {:?}", when, a, b));
    }
    let (a, b) = (t.fractal_dim_stats(), f.fractal_dim_stats());
    if a.sequence_len != b.sequence_len || a.layer_totals != b.layer_totals || !a.weighted_layer_totals.iter().zip(&b.weighted_layer_totals).all(|(x, y)| (x - y).abs() <= 1e-4 * (1.0 + x.abs().max(y.abs()))) {
        return Some(format!("{}: dimension statistics {:?}, recomputed {:?}", when, a, b));
    }
    let addrs: Vec<Addr> = s.nodes.keys().copied().collect();
    let na = addrs[decide("which node", addrs.len())];
    let norm = |v: Option<(Vec<(Addr, f64)>, f64)>| v.map(|(mut v, e)| {
        v.sort_by(|x, y| x.0.cmp(&y.0));
        (v, e)
    });
    let (a, b) = (norm(t.prob_vector(na)), norm(f.prob_vector(na)));
    let same = match (&a, &b) {
        (None, None) => true,
        (Some((v, e)), Some((w, f))) => close(*e, *f) && v.len() == w.len() && v.iter().zip(w).all(|(x, y)| x.0 == y.0 && close(x.1, y.1)),
        _ => false,
    };
    if !same {
        return Some(format!("{}: posterior at {:?} {:?}, recomputed {:?}", when, na, a, b));
    }
    None
}

fn a_path(r: &Reader, c: &SimCloud, seen: &[Path]) -> Option<Path> {
    if !seen.is_empty() && flip("path again", 300) {
        return Some(seen[decide("which path", seen.len())].clone());
    }
    if flip("known path", 400) {
        r.known_path(c.idx[decide("known which", c.n())]).ok()
    } else {
        let q = cloud::query(c);
        r.path(&&q).ok()
    }
}

fn window(all: &[Path], w: usize) -> &[Path] {
    if w == 0 {
        all
    } else {
        &all[all.len().saturating_sub(w)..]
    }
}

pub fn c19() {
    setup();
    let c = Arc::new(cloud::make(Shape { max: 40, big: 5, wide: 0, min: 1 }));
    let p = Params::draw();
    let mut w = reloaded(build(&c, &p), &c);
    w.add_plugin::<GokoDirichlet>(GokoDirichlet::default());
    let s = {
        let mut s = snapshot(&w.reader());
        s.check_structure(&c.idx);
        Arc::new(s)
    };
    workers();
    // counts up before and after the writer goes: odd while it is going
    let going = Arc::new(AtomicUsize::new(0));
    let ts: Vec<usize> = (0..1 + decide("trackers", 3))
        .map(|i| {
            let (r, spare) = (w.reader(), w.reader());
            let (c, s, going) = (Arc::clone(&c), Arc::clone(&s), Arc::clone(&going));
            simcore::spawn(&format!("tracker{}", i), false, move || {
                let size = [0, 1, 2, 3, 5, 8][decide("window", 6)];
                let mut t = BayesCategoricalTracker::new(size, r);
                let mut all: Vec<Path> = vec![];
                for n in 0..3 + decide("history", 16) {
                    if let Some(path) = a_path(&spare, &c, &all) {
                        all.push(path.clone());
                        if catch_unwind(AssertUnwindSafe(|| t.add_path(path))).is_err() {
                            fail("panic", "adding a path panicked");
                        }
                    }
                    let when = format!("window {}, {} paths seen, step {}", size, all.len(), n);
                    check_evidence(&t, window(&all, size), &when);
                    observe_state(t.running_evidence().len() as u64 * 1000 + t.sequence_len() as u64);
                    if flip("statistics", 350) {
                        let r = catch_unwind(AssertUnwindSafe(|| {
                            let e = going.load(SeqCst);
                            let d = check_replay(&t, &spare, size, window(&all, size), &s, &when);
                            // unless the writer left meanwhile, the numbers have to agree
                            if going.load(SeqCst) == e && e != 1 {
                                count("trackers recomputed");
                                return d;
                            }
                            None
                        }));
                        if let Ok(Some(d)) = &r {
                            fail("statistics", d);
                        }
                        if let Err(e) = r {
                            fail("panic", &format!("{}: computing statistics panicked: {}", when, simcore::panic_text(&e)));
                        }
                    }
                    if flip("append", 60) {
                        // with another tracker of the same window
                        let mut more = vec![];
                        for _ in 0..decide("appended", 5) {
                            if let Some(p) = a_path(&spare, &c, &all) {
                                more.push(p);
                            }
                        }
                        let other = fresh(&spare, size, &more);
                        t = t.append(&other);
                        all.extend(window(&more, size).iter().cloned());
                        count("trackers appended");
                        check_evidence(&t, window(&all, size), &format!("{} after appending {}", when, more.len()));
                    }
                }
                count(if size == 0 { "unlimited trackers" } else if all.len() > size { "windows that slid" } else { "windows not full" });
            })
        })
        .collect();
    let mut at = vec![];
    for _ in 0..decide("writer actions", 4) {
        writer_action(&mut w, &mut at);
    }
    if flip("writer goes", 300) {
        count("fault writer dropped");
        going.fetch_add(1, SeqCst);
        drop(w);
        going.fetch_add(1, SeqCst);
        for t in ts {
            simcore::join(t);
        }
    } else {
        for t in ts {
            simcore::join(t);
        }
    }
}

// ---------------------------------------------------------------- C24

fn flat(s: &KLDivergenceBaselineStats) -> Vec<f64> {
    [s.max, s.min, s.nz_count, s.moment1_nz, s.moment2_nz].iter().flat_map(|x| [x.0, x.1]).collect()
}
/// Variances come out of a difference of squares. Where no divergence counts, extremes mean nothing.
fn near(a: f64, b: f64, scale: f64) -> bool {
    scale > 1e150 || a == b || (a - b).abs() <= 1e-6 * (1.0 + scale) || (a.is_nan() && b.is_nan())
}
fn means(t: &Tracker) -> Vec<f64> {
    let s = t.kl_div_stats();
    vec![s.max, s.min, s.nz_count as f64, s.moment1_nz, s.moment2_nz]
}

pub fn c24() {
    setup();
    let c = Arc::new(cloud::make(Shape { max: 24, big: 0, wide: 0, min: 1 }));
    let p = Params::draw();
    let mut w = reloaded(build(&c, &p), &c);
    w.add_plugin::<GokoDirichlet>(GokoDirichlet::default());
    let n = c.n();
    let r = w.reader();
    let paths: Vec<Path> = c.quietly(|| c.idx.iter().map(|i| r.known_path(*i).unwrap_or_else(|e| fail("query-failed", &format!("known_path({}): {}", i, e)))).collect());
    // what a sample can be; None if rounding decides it
    let sample = |p: &[Path]| {
        let _q = simcore::Busy::new();
        let t = fresh(&r, 0, p);
        if shaky(&t) { None } else { Some(means(&t)) }
    };
    let whole = sample(&paths);
    let singles: Option<Vec<Vec<f64>>> = paths.iter().map(|p| sample(&[p.clone()])).collect();
    let mut pairs = Some(vec![]);
    if n <= 12 {
        for i in 0..n {
            for k in 0..i {
                match (sample(&[paths[i].clone(), paths[k].clone()]), &mut pairs) {
                    (Some(m), Some(v)) => v.push(m),
                    _ => pairs = None,
                }
            }
        }
    }
    let rate = 1 + decide("sample rate", 4);
    let (mut wanted, mut num) = ([0, 0, 1, 2, 3, n, n + 3][decide("sequence length", 7)], [1, 1, 2, 3, 8, 0][decide("sequences", 6)]);
    if flip("many sequences", 60) {
        // enough to see that they are random
        wanted = 1 + decide("short sequences", 3);
        num = 400;
        simcore::more_steps(20);
    }
    let len = if wanted == 0 { n } else { wanted.min(n) };
    workers();
    let mut b = DirichletBaseline::default();
    b.set_sample_rate(rate);
    b.set_sequence_len(wanted);
    b.set_num_sequences(num);
    let faulty = flip("data fails", 250);
    if faulty {
        c.set_fault(Fault::Prob([20, 200][decide("fault rate", 2)]));
    }
    let goes = flip("writer goes", 300);
    let (reader, going) = (w.reader(), Arc::new(AtomicUsize::new(0)));
    let out = Arc::new(crate::net::Shared::new(None));
    let t = {
        let (out, going) = (Arc::clone(&out), Arc::clone(&going));
        simcore::spawn("trainer", false, move || {
            let e = going.load(SeqCst);
            let r = catch_unwind(AssertUnwindSafe(|| b.train(reader)));
            *out.get() = Some((r, e, going.load(SeqCst)));
        })
    };
    let mut at = vec![];
    let mut w = Some(w);
    // attaching plugins is not specified where data cannot be read
    for _ in 0..if faulty { 0 } else { decide("writer actions", 4) } {
        writer_action(w.as_mut().unwrap(), &mut at);
    }
    if goes {
        count("fault writer dropped");
        going.fetch_add(1, SeqCst);
        drop(w.take());
        going.fetch_add(1, SeqCst);
    }
    simcore::join(t);
    let hits = c.hits();
    c.set_fault(Fault::None);
    let (res, before, after) = out.get().take().unwrap();
    let _q = simcore::Busy::new();
    let b = match res {
        Err(e) => fail("panic", &format!("training panicked: {}", simcore::panic_text(&e))),
        Ok(Err(e)) => {
            if hits == 0 && after == 0 {
                fail("training-failed", &format!("training returned {}", e));
            }
            count("trainings that failed");
            observe_state(hits as u64 * 2 + (after != 0) as u64);
            return;
        }
        Ok(Ok(b)) => b,
    };
    // asking for any length gives an answer
    let stats: Vec<Vec<f64>> = (0..2 * n + 6)
        .map(|i| match catch_unwind(AssertUnwindSafe(|| flat(&b.stats(i)))) {
            Ok(s) => s,
            Err(e) => fail("panic", &format!("stats({}) of {} samples panicked: {}", i, b.stats.len(), simcore::panic_text(&e))),
        })
        .collect();
    observe_state(stats.iter().flatten().fold(3 + before as u64 * 5 + after as u64 * 7, |h, x| (h ^ x.to_bits()).wrapping_mul(0x100_0000_01b3)));
    if before != 0 || after != 0 {
        return;
    }
    if hits > 0 {
        fail("hidden-error", "the data could not be read, but training succeeded");
    }
    if num == 0 {
        return;
    }
    count("baselines trained");
    if b.num_sequences != num {
        fail("sequences", &format!("{} sequences, {} were asked for", b.num_sequences, num));
    }
    let knots: Vec<usize> = (0..len).filter(|i| i % rate == 0).map(|i| i + 1).collect();
    if b.sequence_len != knots || b.stats.len() != knots.len() {
        fail("samples", &format!("samples at {:?}, expected {:?}", b.sequence_len, knots));
    }
    let close2 = |a: &[f64], b: &[f64]| a.iter().zip(b).all(|(x, y)| y.is_nan() || near(*x, *y, y.abs()));
    // between and beyond the samples: linear
    for (i, got) in stats.iter().enumerate() {
        let k = match knots.binary_search(&i) {
            Ok(_) => continue,
            Err(k) => k,
        };
        let want = if k == 0 {
            vec![0.0; 10]
        } else if knots.len() == 1 {
            stats[knots[0]].clone()
        } else {
            let (x, y) = if k == knots.len() { (knots[k - 2], knots[k - 1]) } else { (knots[k - 1], knots[k]) };
            let f = (i - x) as f64 / (y - x) as f64;
            stats[x].iter().zip(&stats[y]).map(|(a, b)| a + f * (b - a)).collect()
        };
        if !close2(got, &want) {
            fail("interpolation", &format!("stats({}) are {:?}, between the samples they are {:?}", i, got, want));
        }
    }
    if *knots.last().unwrap() == n {
        if let Some(m) = whole {
            let s = &stats[n];
            for (j, want) in m.iter().enumerate() {
                if !near(s[2 * j], *want, want.abs()) || !near(s[2 * j + 1], 0.0, want.abs() * want.abs().max(1.0)) {
                    fail("all-points", &format!("after all {} points the statistics are {:?}, every sequence gives {:?}", n, s, m));
                }
            }
            count("full sequences compared");
        }
    }
    let is = |s: &[f64], m: &[f64]| m.iter().enumerate().all(|(j, want)| near(s[2 * j], *want, want.abs()));
    // The mean of many random choices is near that of all (Hoeffding, wrong once in 10^13).
    let random = |s: &[f64], m: &[Vec<f64>], what: &str| {
        for j in 0..5 {
            let v: Vec<f64> = m.iter().map(|m| m[j]).collect();
            let (lo, hi) = v.iter().fold((f64::INFINITY, f64::NEG_INFINITY), |(l, h), x| (l.min(*x), h.max(*x)));
            let mean = v.iter().sum::<f64>() / v.len() as f64;
            let off = (hi - lo) * (30.0 / (2.0 * num as f64)).sqrt() + 1e-6 * (1.0 + hi.abs().max(lo.abs()));
            if !(hi.abs().max(lo.abs()) < 1e150) {
                continue;
            }
            if (s[2 * j] - mean).abs() > off {
                fail("not-random", &format!("the {} sample of {} sequences has the mean {}, random sequences have {} +- {}", what, num, s[2 * j], mean, off));
            }
            // every sequence the same, where no value has more than half the choices
            let big = hi.abs().max(lo.abs());
            let most = v.iter().map(|x| v.iter().filter(|y| (*x - **y).abs() <= 1e-3 * big).count()).max().unwrap_or(0);
            if most * 2 <= v.len() && s[2 * j + 1].abs() <= 1e-10 * big * big {
                fail("not-random", &format!("the {} samples of {} sequences are all the same", what, num));
            }
        }
        count("randomness of many sequences judged");
    };
    if num == 400 {
        if let Some(m) = &singles {
            random(&stats[1], m, "first");
        }
        if let (Some(m), true) = (&pairs, n <= 12 && len >= 2 && rate == 1) {
            random(&stats[2], m, "second");
        }
    }
    if let Some(m) = singles {
        let s = &stats[1];
        if num == 1 && !m.iter().any(|m| is(s, m)) {
            fail("first-sample", &format!("the first sample is {:?}, which no single point gives", s));
        }
        for j in 0..5 {
            let lo = m.iter().map(|m| m[j]).fold(f64::INFINITY, f64::min);
            let hi = m.iter().map(|m| m[j]).fold(f64::NEG_INFINITY, f64::max);
            let big = hi.abs().max(lo.abs());
            if big > 1e150 {
                continue;
            }
            if s[2 * j] < lo - 1e-6 * (1.0 + big) || s[2 * j] > hi + 1e-6 * (1.0 + big) {
                fail("first-sample", &format!("the mean {} of the first sample is outside what single points give, {} to {}", s[2 * j], lo, hi));
            }
            if s[2 * j + 1] < -1e-6 * (1.0 + big * big) || s[2 * j + 1] > (hi - lo) * (hi - lo) / 4.0 + 1e-6 * (1.0 + big * big) {
                fail("first-sample", &format!("the variance {} of the first sample is impossible for values from {} to {}", s[2 * j + 1], lo, hi));
            }
        }
        count("first samples compared");
    }
    if let Some(m) = pairs {
        if num == 1 && n <= 12 && len >= 2 && rate == 1 {
            if !m.iter().any(|m| is(&stats[2], m)) {
                fail("second-sample", &format!("the second sample is {:?}, which no two points give", stats[2]));
            }
            count("second samples compared");
        }
    }
}
