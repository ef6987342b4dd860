//! Drawing from the distributions attached to the nodes (C26).
use crate::cloud::{self, Params, Shape};
use crate::tree::{build, reloaded, setup, snapshot, workers, writer_action, Addr, Reader, Snap};
use goko::plugins::discrete::prelude::{Categorical, Dirichlet, GokoCategorical, GokoDirichlet};
use goko::plugins::discrete::tracker::BayesCategoricalTracker;
use rand::RngCore;
use simcore::{count, decide, fail, flip, observe_state};
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, Ordering::SeqCst};
use std::sync::Arc;

/// Randomness from the schedule: every run of `m` draws takes one from each of `m` equal parts of the range, in a random order.
struct Even {
    order: Vec<u64>,
    at: usize,
    state: u64,
    calls: usize,
}
impl Even {
    fn new(m: usize) -> Even {
        let mut e = Even { order: (0..m as u64).collect(), at: 0, state: decide("draws", 50021) as u64 + 1, calls: 0 };
        for i in (1..m).rev() {
            let k = (e.mix() % (i as u64 + 1)) as usize;
            e.order.swap(i, k);
        }
        e
    }
    fn mix(&mut self) -> u64 {
        self.state = self.state.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.state;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
}
impl RngCore for Even {
    fn next_u32(&mut self) -> u32 {
        (self.next_u64() >> 32) as u32
    }
    fn next_u64(&mut self) -> u64 {
        let m = self.order.len();
        let part = u64::MAX / m as u64;
        let i = self.order[self.at % m];
        self.at += 1;
        self.calls += 1;
        i * part + self.mix() % part
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for c in dest.chunks_mut(8) {
            let b = self.next_u64().to_le_bytes();
            c.copy_from_slice(&b[..c.len()]);
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(dest);
        Ok(())
    }
}

/// What a distribution has to be: a weight for each child and for the node's own points.
#[derive(Clone, Debug)]
struct Weights {
    on: BTreeMap<Addr, f64>,
    own: f64,
}
impl Weights {
    fn of(s: &Snap, a: Addr) -> Weights {
        let n = &s.nodes[&a];
        Weights {
            on: n.all_children(a).iter().map(|c| (*c, s.under[c].len() as f64)).collect(),
            own: n.singles.len() as f64 + if n.nested.is_none() { 1.0 } else { 0.0 },
        }
    }
    fn total(&self) -> f64 {
        self.on.values().sum::<f64>() + self.own
    }
    fn scale(&mut self, w: f64) {
        self.on.values_mut().for_each(|x| *x *= w);
        self.own *= w;
    }
    fn see(&mut self, at: Option<Addr>, n: f64) {
        match at {
            Some(c) => *self.on.entry(c).or_insert(0.0) += n,
            None => self.own += n,
        }
    }
    fn at(&self, o: &Option<Addr>) -> f64 {
        match o {
            Some(c) => self.on.get(c).copied().unwrap_or(0.0),
            None => self.own,
        }
    }
}

fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-9 * (1.0 + a.abs().max(b.abs()))
}

fn probabilities(what: &str, got: Option<(Vec<(Addr, f64)>, f64)>, w: &Weights, f: fn(f64) -> f64) {
    let t = w.total();
    let got = got.map(|(mut v, own)| {
        v.sort_by_key(|x| x.0);
        (v, own)
    });
    match got {
        None if t == 0.0 => {}
        Some((v, own)) if t > 0.0 && v.len() == w.on.len() && v.iter().zip(&w.on).all(|(x, y)| x.0 == *y.0 && near(x.1, f(*y.1 / t))) && near(own, f(w.own / t)) => {}
        got => fail("probability", &format!("{} gives {:?}, its weights are {:?}", what, got, w)),
    }
}

fn draws(what: &str, w: &Weights, sample: &dyn Fn(&mut Even) -> Option<Addr>) {
    let m = [16, 64, 256][decide("number of draws", 3)];
    let mut rng = Even::new(m);
    let mut got: BTreeMap<Option<Addr>, usize> = BTreeMap::new();
    for _ in 0..m {
        *got.entry(sample(&mut rng)).or_default() += 1;
    }
    let t = w.total();
    if t == 0.0 {
        count("empty distributions drawn from");
        if got.len() != 1 || !got.contains_key(&None) {
            fail("draw", &format!("{} is empty and gave {:?}", what, got));
        }
        return;
    }
    for o in got.keys() {
        if w.at(o) == 0.0 {
            fail("draw", &format!("{} gave {:?}, its weights are {:?}", what, o, w));
        }
    }
    for o in w.on.keys().map(|c| Some(*c)).chain(std::iter::once(None)) {
        let (n, p) = (got.get(&o).copied().unwrap_or(0) as f64, w.at(&o) / t);
        let mean = m as f64 * p;
        // one number per draw falls evenly; otherwise chance remains
        let slack = if rng.calls == m { 2.0 } else { 3.0 + 8.0 * (mean * (1.0 - p)).max(0.0).sqrt() };
        if (n - mean).abs() > slack {
            fail("proportion", &format!("{}: {} of {} draws gave {:?}, its weights are {:?}", what, n, m, o, w));
        }
    }
    observe_state(got.values().fold(m as u64, |h, n| h.wrapping_mul(1_000_003) ^ *n as u64));
    count("distributions drawn from");
}

/// Sum of ln k for k below n: ln Γ(n) for whole n.
fn ln_gamma(n: f64) -> f64 {
    (1..n.round() as u64).map(|k| (k as f64).ln()).sum()
}
/// ψ(n) for whole n, up to a constant.
fn digamma(n: f64) -> f64 {
    (1..n.round() as u64).map(|k| 1.0 / k as f64).sum()
}

/// The divergence of the prior from the posterior. None where an outcome was seen that the prior excludes.
fn divergence(prior: &Weights, seen: &Weights) -> Option<f64> {
    let (a, e) = (prior.total(), seen.total());
    let mut kl = ln_gamma(a) - ln_gamma(a + e);
    for o in seen.on.keys().map(|c| Some(*c)).chain(std::iter::once(None)) {
        let (p, n) = (prior.at(&o), seen.at(&o));
        if n > 0.0 {
            if p == 0.0 {
                return None;
            }
            kl += ln_gamma(p + n) - ln_gamma(p) - n * (digamma(p) - digamma(a));
        }
    }
    Some(kl)
}
/// The divergence of what was seen from what the node covers. None where something was seen that it does not cover.
fn relative(a: &Weights, b: &Weights) -> Option<f64> {
    let (s, t) = (a.total(), b.total());
    let mut kl = 0.0;
    for o in a.on.keys().map(|c| Some(*c)).chain(std::iter::once(None)) {
        let (p, q) = (a.at(&o) / s, b.at(&o) / t);
        if p > 0.0 {
            if q == 0.0 {
                return None;
            }
            kl += p * (p / q).ln();
        }
    }
    Some(kl)
}

/// What a tracker says after some paths.
fn tracked(r: &Reader, s: &Snap, going: &dyn Fn() -> bool) -> Option<()> {
    let size = [0, 1, 3, 6][decide("window", 4)];
    let mut t = BayesCategoricalTracker::new(size, r.clone());
    let pts = &s.under[&s.root];
    let mut all: Vec<Vec<(f32, Addr)>> = vec![];
    for _ in 0..decide("paths", 12) {
        let mut p = r.known_path(pts[decide("tracked point", pts.len())]).ok()?;
        if flip("path cut short", 150) {
            p.truncate(1 + decide("cut at", p.len()));
        }
        t.add_path(p.clone());
        all.push(p);
    }
    let kept = if size == 0 { &all[..] } else { &all[all.len().saturating_sub(size)..] };
    let mut seen: BTreeMap<Addr, Weights> = BTreeMap::new();
    for p in kept {
        for (i, x) in p.iter().enumerate() {
            seen.entry(x.1).or_insert_with(|| Weights { on: BTreeMap::new(), own: 0.0 }).see(p.get(i + 1).map(|y| y.1), 1.0);
        }
    }
    let kls = t.all_node_kl();
    if kls.len() != seen.len() {
        if going() {
            return None;
        }
        fail("divergence", &format!("divergences at {} nodes, the paths touch {}", kls.len(), seen.len()));
    }
    for (kl, a) in &kls {
        let e = match seen.get(a) {
            Some(e) => e,
            None => fail("divergence", &format!("a divergence at node {:?}, which no path touches", a)),
        };
        let prior = Weights::of(s, *a);
        if let Some(want) = divergence(&prior, e) {
            if (kl - want).abs() > 1e-7 * (1.0 + want.abs()) + 1e-10 * ln_gamma(prior.total() + e.total()) {
                fail("divergence", &format!("at node {:?} it is {}, with {:?} covered and {:?} seen it is {}", a, kl, prior, e, want));
            }
            count("divergences compared");
        } else if !(*kl >= 0.0) {
            fail("divergence", &format!("at node {:?} it is {}", a, kl));
        }
    }
    // the statistics are those of these numbers
    let st = t.kl_div_stats();
    let again = t.all_node_kl();
    if again.len() == kls.len() {
        let mut big: Vec<f64> = kls.iter().map(|x| x.0).filter(|k| *k > 1e-10).collect();
        big.sort_by(|x, y| x.partial_cmp(y).unwrap());
        let ok = st.nz_count as usize == big.len()
            && near(st.moment1_nz, big.iter().sum())
            && near(st.moment2_nz, big.iter().map(|x| x * x).sum())
            && (big.is_empty() || (near(st.max, big[big.len() - 1]) && near(st.min, big[0])))
            && st.sequence_len == kept.len();
        if !ok {
            fail("divergence", &format!("the statistics are {:?}, the divergences {:?} of {} paths", st, big, kept.len()));
        }
        observe_state(big.iter().fold(7, |h, x| (h ^ x.to_bits()).wrapping_mul(0x100_0000_01b3)));
    }
    let k = t.kl_div();
    if !(k >= 0.0 && k.is_finite()) || (seen.is_empty() && k > 1e-9 && !going()) {
        fail("divergence", &format!("of the whole tree it is {} after {} paths", k, kept.len()));
    }
    // over all nodes as outcomes: each weighs its singletons and one, and the leaves once more
    let (total, ends) = ((pts.len() + s.nodes.len()) as f64, kept.len() as f64);
    let mut want = ln_gamma(total + ends) - ln_gamma(total);
    for (a, e) in &seen {
        let p = s.nodes[a].singles.len() as f64 + 1.0;
        if e.own > 0.0 {
            want += ln_gamma(p) - ln_gamma(p + e.own) + e.own * (digamma(p + e.own) - digamma(total + ends));
        }
    }
    if (k - want.max(0.0)).abs() > 1e-7 * (1.0 + want.abs()) + 1e-10 * ln_gamma(total + ends) && !going() {
        fail("divergence", &format!("of the whole tree it is {} after {} paths, it should be {}", k, kept.len(), want));
    }
    // one node's evidence against what the node, or another one, covers
    let at: Vec<Addr> = seen.keys().copied().collect();
    if !at.is_empty() {
        let a = at[decide("compared node", at.len())];
        let b = if flip("another node", 200) { *s.nodes.keys().nth(decide("which", s.nodes.len())).unwrap() } else { a };
        let c = r.get_node_plugin_and::<Categorical, _, _>(b, |p| p.clone())?;
        let (e, w) = (&seen[&a], Weights::of(s, b));
        let ev = match t.running_evidence().get(&a) {
            Some(e) => e,
            None => fail("divergence", &format!("no evidence at node {:?}", a)),
        };
        for (got, want, what) in [(ev.kl_divergence(&c), relative(e, &w), "seen from covered"), (c.kl_divergence(ev), relative(&w, e), "covered from seen")] {
            let same = match (got, want) {
                (None, None) => true,
                (Some(x), Some(y)) => near(x, y),
                _ => false,
            };
            if !same {
                fail("divergence", &format!("{} is {:?}, with {:?} seen at {:?} and {:?} covered at {:?} it is {:?}", what, got, e, a, w, b, want));
            }
            count(if got.is_some() { "categoricals compared" } else { "categoricals not comparable" });
        }
        for o in w.on.keys().map(|c| Some(*c)).chain(std::iter::once(None)) {
            let (p, q) = (c.ln_pdf(o.as_ref()), w.at(&o) / w.total());
            if !p.map_or(false, |p| near(p, q.ln())) {
                fail("probability", &format!("the logarithm for {:?} at {:?} is {:?}, the probability is {}", o, b, p, q));
            }
        }
    }
    Some(())
}

/// One thing done with a node's distribution. None if the tree was gone.
fn one(r: &Reader, s: &Snap, going: &dyn Fn() -> bool) -> Option<()> {
    let all: Vec<Addr> = s.nodes.keys().copied().collect();
    let a = all[decide("node", all.len())];
    let w = Weights::of(s, a);
    match decide("what to draw", 6) {
        4 => tracked(r, s, going)?,
        0 => {
            let c = r.get_node_plugin_and::<Categorical, _, _>(a, |p| p.clone())?;
            let what = format!("the categorical of node {:?}", a);
            probabilities(&what, c.prob_vector(), &w, |x| x);
            draws(&what, &w, &|g| c.sample(g));
        }
        1 => {
            // a walk from the root
            let mut rng = Even::new(16);
            let (mut at, mut steps) = (s.root, 0);
            let dir = flip("walk by priors", 500);
            loop {
                let next = if dir { r.get_node_plugin_and::<Dirichlet, _, _>(at, |p| p.sample(&mut rng))? } else { r.get_node_plugin_and::<Categorical, _, _>(at, |p| p.sample(&mut rng))? };
                let w = Weights::of(s, at);
                if w.at(&next) == 0.0 {
                    fail("walk", &format!("a walk went from {:?} to {:?}; the weights there are {:?}", at, next, w));
                }
                steps += 1;
                match next {
                    Some(c) => at = c,
                    None => break,
                }
            }
            observe_state(steps);
            count("walks to the end");
        }
        _ => {
            // the prior, and what becomes of it
            let mut d = r.get_node_plugin_and::<Dirichlet, _, _>(a, |p| p.clone())?;
            let mut w = w;
            for _ in 0..decide("changes of the prior", 4) {
                match decide("change", 4) {
                    0 => {
                        let x = [0.5, 2.0, 0.25, 0.125, 3.0, 0.0][decide("weight", 6)];
                        d.weight(x);
                        w.scale(x);
                    }
                    1 | 2 => {
                        let kids = s.nodes[&a].all_children(a);
                        let o = match decide("observed", kids.len() + 2) {
                            0 => None,
                            1 => Some(all[decide("observed node", all.len())]),
                            i => Some(kids[i - 2]),
                        };
                        d.add_observation(o);
                        w.see(o, 1.0);
                    }
                    _ => {
                        let b = all[decide("evidence of", all.len())];
                        let b = if flip("own evidence", 700) { a } else { b };
                        let e = r.get_node_plugin_and::<Categorical, _, _>(b, |p| p.clone())?;
                        d.add_evidence(&e);
                        let o = Weights::of(s, b);
                        for (c, n) in &o.on {
                            w.see(Some(*c), *n);
                        }
                        w.see(None, o.own);
                    }
                }
                count("priors changed");
            }
            let what = format!("the prior of node {:?}", a);
            if !near(d.total(), w.total()) {
                fail("probability", &format!("{} has the total {}, its weights are {:?}", what, d.total(), w));
            }
            probabilities(&what, d.prob_vector(), &w, |x| x);
            probabilities(&what, d.ln_prob_vector(), &w, f64::ln);
            draws(&what, &w, &|g| d.sample(g));
        }
    }
    Some(())
}

pub fn c26() {
    setup();
    let c = Arc::new(cloud::make(Shape { max: 40, big: 5, wide: 0, min: 1 }));
    let p = Params::draw();
    let mut w = reloaded(build(&c, &p), &c);
    w.add_plugin(GokoDirichlet::default());
    w.add_plugin(GokoCategorical {});
    let s = {
        let mut s = snapshot(&w.reader());
        s.check_structure(&c.idx);
        Arc::new(s)
    };
    workers();
    let going = Arc::new(AtomicBool::new(false));
    let rounds = 2 + decide("draw rounds", 6);
    let ts: Vec<usize> = (0..1 + decide("drawers", 3))
        .map(|i| {
            let (r, s, going) = (w.reader(), Arc::clone(&s), Arc::clone(&going));
            simcore::spawn(&format!("draw{}", i), false, move || {
                for _ in 0..rounds {
                    match catch_unwind(AssertUnwindSafe(|| one(&r, &s, &|| going.load(SeqCst)))) {
                        Ok(Some(())) => {}
                        Ok(None) if going.load(SeqCst) => count("nothing to draw from any more"),
                        Ok(None) => fail("plugin-missing", "a node lost its distribution"),
                        Err(e) => fail("panic", &format!("drawing panicked: {}", simcore::panic_text(&e))),
                    }
                    simcore::step("draw");
                }
            })
        })
        .collect();
    let mut at = vec![4, 5];
    for _ in 0..decide("writer actions", 4) {
        writer_action(&mut w, &mut at);
    }
    let w = if flip("writer goes", 250) {
        count("fault writer dropped");
        going.store(true, SeqCst);
        drop(w);
        None
    } else {
        Some(w)
    };
    for t in ts {
        simcore::join(t);
    }
    drop(w);
}
