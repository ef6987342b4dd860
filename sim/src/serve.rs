//! The HTTP server over simulated connections, tasks and data (C15 to C18).
use crate::cloud::{self, Fault, Params, Shape, SimCloud};
use crate::net::{self, Conn, Listener};
use goko::plugins::discrete::prelude::GokoDirichlet;
use goko::plugins::discrete::tracker::BayesCategoricalTracker;
use goko::{CoverTreeReader, PartitionType};
use pointcloud::pc_errors::PointCloudResult;
use pointcloud::summaries::{CategorySummary, VecSummary};
use pointcloud::*;
use serde_json::{json, Value};
use serve_goko::core::CoreWriter;
use serve_goko::http::MakeGokoHttp;
use serve_goko::parsers::MsgPackDense;
use simcore::{count, decide, fail, flip, observe_state, Busy};
use std::collections::BTreeMap;
use std::sync::Arc;

pub type Addr = (i32, usize);
pub type Path = Vec<(f32, Addr)>;

// ---------------------------------------------------------------- data

/// The simulated data source with plain vectors for points and the real metric.
#[derive(Debug)]
pub struct Flat {
    pub c: SimCloud,
    pub vecs: Vec<Vec<f32>>,
    pub dim: usize,
}
impl PointCloud for Flat {
    type Point = [f32];
    type PointRef<'a> = &'a [f32];
    type Metric = L2;
    type Label = i64;
    type LabelSummary = CategorySummary;
    type Metadata = [f32];
    type MetaSummary = VecSummary;
    fn metadata(&self, pn: usize) -> PointCloudResult<Option<&[f32]>> {
        self.c.metadata(pn)
    }
    fn metasummary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<VecSummary>> {
        self.c.metasummary(pns)
    }
    fn label(&self, pn: usize) -> PointCloudResult<Option<&i64>> {
        self.c.label(pn)
    }
    fn label_summary(&self, pns: &[usize]) -> PointCloudResult<SummaryCounter<CategorySummary>> {
        self.c.label_summary(pns)
    }
    fn name(&self, pi: usize) -> PointCloudResult<String> {
        self.c.name(pi)
    }
    fn index(&self, pn: &str) -> PointCloudResult<usize> {
        self.c.index(pn)
    }
    fn names(&self) -> Vec<String> {
        self.c.names()
    }
    fn len(&self) -> usize {
        self.c.len()
    }
    fn is_empty(&self) -> bool {
        self.c.is_empty()
    }
    fn dim(&self) -> usize {
        self.dim
    }
    fn reference_indexes(&self) -> Vec<usize> {
        self.c.reference_indexes()
    }
    fn point<'a, 'b: 'a>(&'b self, i: usize) -> PointCloudResult<&'a [f32]> {
        let p = self.c.access(i)?;
        Ok(&self.vecs[p])
    }
}

/// A tree with what the server needs, its reference reader, and the running server.
pub struct Site {
    pub c: Arc<Flat>,
    pub p: Params,
    pub r: CoverTreeReader<Flat>,
    pub core: Option<Arc<CoreWriter<Flat, Vec<f32>>>>,
    pub rt: Option<tokio::runtime::Runtime>,
    pub h: tokio::runtime::Handle,
    pub door: Listener,
    /// Reads of the data may fail.
    pub faulty: bool,
}

/// The harness's own computations are not scheduled and do not fail.
pub fn quiet<T, F: FnOnce() -> T>(c: &Flat, f: F) -> T {
    let _b = Busy::new();
    c.c.quietly(f)
}

pub fn site(workers: usize, serve: bool) -> Site {
    crate::tree::setup();
    let c = cloud::make(Shape { max: 30, big: 0, wide: 0, min: 1 });
    let mut extra = [0usize, 0, 5, 20][decide("more dimensions", 4)];
    if flip("wide points", 15) {
        // bodies beyond the buffers' first size
        extra = [1700, 2500, 5000][decide("how wide", 3)];
        net::LEAST.store(512, std::sync::atomic::Ordering::Relaxed);
        count("bodies of many kilobytes");
    }
    let vecs: Vec<Vec<f32>> = c.pts.iter().map(|p| p.v.iter().copied().chain(std::iter::repeat(0.5).take(extra)).collect()).collect();
    let dim = vecs[0].len();
    let c = Arc::new(Flat { c, vecs, dim });
    let p = Params::draw();
    let b = p.builder();
    let w = quiet(&c, || {
        let mut w = b.build(Arc::clone(&c)).unwrap_or_else(|e| fail("build-failed", &format!("the build returned {}", e)));
        if flip("no summaries", 200) {
            count("trees without summaries");
        } else {
            w.generate_summaries();
        }
        w.add_plugin::<GokoDirichlet>(GokoDirichlet::default());
        w
    });
    let r = w.reader();
    let (rt, h) = net::runtime(workers);
    let door = Listener::new();
    let core = {
        let _g = h.enter();
        Arc::new(CoreWriter::new(w))
    };
    let x = Site { c, p, r, core: Some(core), rt: Some(rt), h, door, faulty: false };
    if serve {
        let _g = x.h.enter();
        let make = MakeGokoHttp::<Flat, MsgPackDense>::new(Arc::clone(x.core.as_ref().unwrap()));
        let mut b = hyper::Server::builder(x.door.clone());
        if flip("half close allowed", 300) {
            b = b.http1_half_close(true);
        }
        let server = b.serve(make);
        // a program awaits the server on its main thread; here it is a task as any other
        let task = async move {
            if let Err(e) = server.await {
                fail("server-ended", &format!("the server stopped: {}", e));
            }
        };
        tokio::spawn(OneThread(Box::pin(task)));
    }
    x
}

struct OneThread(std::pin::Pin<Box<dyn std::future::Future<Output = ()>>>);
unsafe impl Send for OneThread {}
impl std::future::Future for OneThread {
    type Output = ();
    fn poll(mut self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>) -> std::task::Poll<()> {
        self.0.as_mut().poll(cx)
    }
}

pub fn query(c: &Flat) -> Vec<f32> {
    let q = cloud::query(&c.c);
    let mut v = q.v;
    while v.len() < c.dim {
        v.push(0.5 + decide("query tail", 3) as f32);
    }
    v
}

// ---------------------------------------------------------------- requests

#[derive(Clone, Debug)]
pub enum Expect {
    /// A successful answer with this content.
    Is(Value),
    /// A successful tracker statistics answer with these numbers.
    Stats(Vec<f64>),
    /// An error, on whatever level.
    Refused,
    /// Some answer or a closed connection.
    Anything,
}

#[derive(Clone, Debug)]
pub struct Req {
    pub what: String,
    pub bytes: Vec<u8>,
    pub want: Expect,
    /// The server may close the connection after this one.
    pub may_close: bool,
    /// Touches a tracker, so a lost answer makes that tracker's state unknown.
    pub tracker: bool,
    /// The connection stays usable for this client's next request.
    pub last: bool,
}

#[derive(Default)]
pub struct Wire {
    /// Send bodies chunked even where the length is known.
    pub chunked: bool,
}

fn msgpack(v: &[f32]) -> Vec<u8> {
    match decide("body encoding", 4) {
        0 | 1 => rmp_serde::to_vec(&v).unwrap(),
        2 => rmp_serde::to_vec(&v.iter().map(|x| *x as f64).collect::<Vec<f64>>()).unwrap(),
        _ if v.iter().all(|x| x.fract() == 0.0 && x.abs() < 1e6) => rmp_serde::to_vec(&v.iter().map(|x| *x as i32).collect::<Vec<i32>>()).unwrap(),
        _ => rmp_serde::to_vec(&v).unwrap(),
    }
}

pub fn zlib(b: &[u8]) -> Vec<u8> {
    use std::io::Write;
    let mut e = flate2::write::ZlibEncoder::new(Vec::new(), flate2::Compression::new(decide("compression", 3) as u32 * 3));
    e.write_all(b).unwrap();
    e.finish().unwrap()
}

/// Puts a request on the wire.
pub fn raw(method: &str, target: &str, headers: &[(&str, &[u8])], body: Option<&[u8]>, last: bool) -> Vec<u8> {
    let old = last && flip("http 1.0", 150);
    let mut o = format!("{} {} HTTP/1.{}\r\n", method, target, if old { 0 } else { 1 }).into_bytes();
    if flip("host first", 500) {
        o.extend(b"Host: sim\r\n");
    }
    for (k, v) in headers {
        o.extend(k.as_bytes());
        o.extend(b": ");
        o.extend(*v);
        o.extend(b"\r\n");
    }
    if last && !old {
        o.extend(b"Connection: close\r\n");
    }
    match body {
        None => o.extend(b"\r\n"),
        Some(b) if !old && (method == "GET" || !b.is_empty()) && flip("chunked", 400) => {
            count("chunked bodies");
            if flip("expect continue", 100) {
                o.extend(b"Expect: 100-continue\r\n");
            }
            o.extend(b"Transfer-Encoding: chunked\r\n\r\n");
            let mut i = 0;
            while i < b.len() {
                let n = 1 + decide("chunk", (b.len() - i).min(40));
                o.extend(format!("{:x}\r\n", n).as_bytes());
                o.extend(&b[i..i + n]);
                o.extend(b"\r\n");
                i += n;
            }
            o.extend(b"0\r\n");
            if flip("trailer", 200) {
                o.extend(b"X-Check: 7\r\n");
            }
            o.extend(b"\r\n");
        }
        Some(b) => o.extend(format!("Content-Length: {}\r\n\r\n", b.len()).as_bytes().iter().chain(b)),
    }
    o
}

fn with_point(method: &str, target: &str, point: &[f32], last: bool) -> Vec<u8> {
    let b = msgpack(point);
    if flip("compressed", 250) {
        count("compressed bodies");
        raw(method, target, &[("Content-Type", b"gzip")], Some(&zlib(&b)), last)
    } else {
        raw(method, target, &[], Some(&b), last)
    }
}

fn named(v: &[(f32, usize)]) -> Value {
    Value::Array(v.iter().map(|(d, i)| json!({"name": format!("p{}", i), "distance": d})).collect())
}

fn ok(what: String, bytes: Vec<u8>, want: Expect, tracker: bool, last: bool) -> Req {
    Req { what, bytes, want, may_close: last, tracker, last }
}

fn k_of(n: usize) -> (String, usize) {
    match decide("k", 8) {
        0 => (String::new(), 10),
        1 => ("?k=0".into(), 0),
        2 => ("?k=1".into(), 1),
        3 => (format!("?k={}", n), n),
        4 => (format!("?k={}", n + 3), n + 3),
        5 => ("?k=1000000000000000000".into(), 1_000_000_000_000_000_000),
        6 => ("?tracker_name=x&k=3&y=1".into(), 3),
        _ => ("?k=2".into(), 2),
    }
}

/// A well-formed question about the tree: what, target, point, and the tree's own answer.
fn question(x: &Site) -> (String, String, Option<Vec<f32>>, Value) {
    let q = query(&x.c);
    let r = &x.r;
    let n = x.c.len();
    match decide("ask", 7) {
        0 | 1 => {
            let (s, k) = k_of(n);
            let want = quiet(&x.c, || r.knn(&&q[..], k)).unwrap_or_else(|e| fail("query-failed", &format!("knn: {}", e)));
            (format!("knn{} of {:?}", s, q), format!("/knn{}", s), Some(q), json!({ "knn": named(&want) }))
        }
        2 | 3 => {
            let (s, k) = k_of(n);
            let want = quiet(&x.c, || r.routing_knn(&&q[..], k)).unwrap_or_else(|e| fail("query-failed", &format!("routing_knn: {}", e)));
            (format!("routing_knn{} of {:?}", s, q), format!("/routing_knn{}", s), Some(q), json!({ "routing_knn": named(&want) }))
        }
        4 | 5 => {
            let want = quiet(&x.c, || {
                let path = r.path(&&q[..]).unwrap_or_else(|e| fail("query-failed", &format!("path: {}", e)));
                path.iter()
                    .map(|(d, a)| {
                        let s = r.get_node_label_summary(*a).map(|s| serde_json::to_value(&*s).unwrap());
                        json!({"name": format!("p{}", a.1), "layer": a.0, "distance": d, "label_summary": s})
                    })
                    .collect::<Vec<Value>>()
            });
            (format!("path of {:?}", q), "/path".into(), Some(q), json!({ "path": want }))
        }
        _ => {
            let pa = quiet(&x.c, || serde_json::to_value(&r.parameters().partition_type).unwrap());
            let first = matches!(r.parameters().partition_type, PartitionType::First);
            if first != x.p.first {
                fail("parameters", "the tree's partition type is not the one asked for");
            }
            let want = json!({
                "scale_base": x.p.scale_base, "leaf_cutoff": x.p.leaf_cutoff, "min_res_index": x.p.min_res, "use_singletons": x.p.singletons,
                "partition_type": pa, "verbosity": r.parameters().verbosity, "rng_seed": x.p.seed,
            });
            ("parameters".into(), ["/", "/?k=3"][decide("root query", 2)].into(), None, want)
        }
    }
}

pub fn ask(x: &Site, last: bool) -> Req {
    let (what, target, point, want) = question(x);
    let bytes = match point {
        Some(q) => with_point("GET", &target, &q, last),
        None => raw("GET", &target, &[], None, last),
    };
    ok(what, bytes, Expect::Is(want), false, last)
}

/// A request that cannot be served.
pub fn malformed(x: &Site) -> Req {
    let q = query(&x.c);
    let good = || msgpack(&q);
    let p = |target: &str, b: &[u8]| raw("GET", target, &[], Some(b), false);
    let route = ["/knn?k=2", "/routing_knn", "/path"][decide("bad route", 3)];
    let (what, bytes, want) = match decide("malformed", 16) {
        0 => ("an unknown route", raw("GET", ["/nothing", "/knn/", "/track", "//"][decide("unknown", 4)], &[], None, false), Expect::Refused),
        1 => ("a wrong method", raw(["POST", "PUT", "DELETE"][decide("method", 3)], "/knn?k=2", &[], Some(&good()), false), Expect::Refused),
        2 => ("an oversized k", p("/knn?k=99999999999999999999999", &good()), Expect::Refused),
        3 => ("a missing window size", raw("POST", ["/track/add", "/track/add?window_size=", "/track/add?window_size=x&tracker_name=a"][decide("window", 3)], &[], None, false), Expect::Refused),
        4 => ("an oversized window size", raw("GET", "/track/stats?window_size=99999999999999999999999", &[], None, false), Expect::Refused),
        5 => ("no body", raw("GET", route, &[], None, false), Expect::Refused),
        6 => ("an empty body", p(route, b""), Expect::Refused),
        7 => ("garbage for a body", p(route, &[0xc1, 1, 2, 3, 0xff][..1 + decide("garbage", 5)]), Expect::Refused),
        8 => {
            let b = rmp_serde::to_vec(&q).unwrap();
            let n = 1 + decide("cut", b.len() - 1);
            ("a truncated point", p(route, &b[..n]), Expect::Refused)
        }
        9 => {
            let mut v = q.clone();
            match decide("wrong dimension", 3) {
                0 => v.push(1.0),
                1 => {
                    v.pop();
                }
                _ => v.extend(std::iter::repeat(0.0).take(40)),
            }
            ("a point of the wrong dimension", p(route, &msgpack(&v)), Expect::Refused)
        }
        10 => ("an unknown content type", raw("GET", route, &[("Content-Type", b"text/plain")], Some(&good()), false), Expect::Refused),
        11 => ("an unreadable content type", raw("GET", route, &[("Content-Type", b"\xe9\xff")], Some(&good()), false), Expect::Refused),
        12 => {
            let mut b = zlib(&good());
            b[0] ^= 0x55;
            ("a damaged compressed body", raw("GET", route, &[("Content-Type", b"gzip")], Some(&b), false), Expect::Refused)
        }
        13 => {
            let b = zlib(&good());
            let n = 3 + decide("cut", b.len() - 9);
            ("a truncated compressed body", raw("GET", route, &[("Content-Type", b"gzip")], Some(&b[..n]), false), Expect::Refused)
        }
        14 => {
            let mut v = q.clone();
            let n = v.len();
            v[decide("which", n)] = [f32::NAN, f32::INFINITY, f32::NEG_INFINITY, f32::MAX][decide("strange", 4)];
            let b = rmp_serde::to_vec(&v).unwrap();
            let bytes = match decide("strange route", 4) {
                3 => raw("POST", "/track/point?tracker_name=strange", &[], Some(&b), false),
                i => p(["/knn?k=2", "/routing_knn?k=2", "/path"][i], &b),
            };
            ("a point that is not finite", bytes, Expect::Anything)
        }
        _ => {
            let mut b = match decide("noise", 5) {
                0 => b"\x00\x01\x02\r\n\r\n".to_vec(),
                1 => b"GET\r\n\r\n".to_vec(),
                2 => b"GET /knn HTTP/1.1\r\nContent-Length: twelve\r\n\r\n".to_vec(),
                3 => b"GET /knn HTTP/1.1\r\nTransfer-Encoding: chunked\r\n\r\nzz\r\n".to_vec(),
                _ => b"GET /knn HTTP/9.9\r\n\r\n".to_vec(),
            };
            b.extend(b"\r\n");
            ("noise", b, Expect::Refused)
        }
    };
    count("malformed requests");
    Req { what: what.into(), bytes, want, may_close: true, tracker: false, last: false }
}

// ---------------------------------------------------------------- answers

#[derive(Debug, Clone)]
pub struct Answer {
    pub status: u16,
    pub body: Vec<u8>,
}

/// Takes one complete response off the front.
pub fn take_answer(b: &mut Vec<u8>) -> Option<Answer> {
    loop {
        let end = b.windows(4).position(|w| w == b"\r\n\r\n")? + 4;
        let head = String::from_utf8_lossy(&b[..end]).to_string();
        let mut lines = head.split("\r\n");
        let first = lines.next().unwrap_or("");
        let status = first.split(' ').nth(1).and_then(|s| s.parse::<u16>().ok()).unwrap_or_else(|| fail("garbled", &format!("the server sent {:?}", head)));
        if (100..200).contains(&status) {
            b.drain(..end);
            continue;
        }
        let mut n = 0;
        for l in lines {
            let l = l.to_ascii_lowercase();
            if let Some(v) = l.strip_prefix("content-length:") {
                n = v.trim().parse().unwrap_or_else(|_| fail("garbled", &format!("the server sent {:?}", head)));
            }
            if l.starts_with("transfer-encoding") {
                fail("garbled", "the harness does not read chunked answers");
            }
        }
        if b.len() < end + n {
            return None;
        }
        let body = b[end..end + n].to_vec();
        b.drain(..end + n);
        return Some(Answer { status, body });
    }
}

fn close(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-7 * (1.0 + a.abs().max(b.abs()))
}

fn alike(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Number(x), Value::Number(y)) => {
            let (x, y) = (x.as_f64().unwrap(), y.as_f64().unwrap());
            x == y || x as f32 == y as f32
        }
        (Value::Array(x), Value::Array(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| alike(a, b)),
        (Value::Object(x), Value::Object(y)) => x.len() == y.len() && x.iter().all(|(k, v)| y.get(k).map_or(false, |w| alike(v, w))),
        _ => a == b,
    }
}

pub fn stats_of(v: &Value) -> Option<Vec<f64>> {
    let s = v.get("CurrentStats")?;
    ["kl_div", "max", "min", "nz_count", "moment1_nz", "moment2_nz", "sequence_len"].iter().map(|k| s.get(*k).and_then(|x| x.as_f64())).collect()
}

pub fn check_answer(req: &Req, a: &Answer, unsure: bool) {
    observe_state(a.status as u64 * 131 + req.what.len() as u64);
    let text = String::from_utf8_lossy(&a.body);
    match &req.want {
        Expect::Anything => {}
        Expect::Refused => {
            if a.status < 400 {
                fail("accepted", &format!("{} was answered with {} {}", req.what, a.status, text));
            }
            count("malformed refused with a status");
        }
        Expect::Is(_) | Expect::Stats(_) => {
            if a.status != 200 {
                fail("refused", &format!("{} was answered with {} {}", req.what, a.status, text));
            }
            let got: Value = serde_json::from_slice(&a.body).unwrap_or_else(|e| fail("garbled", &format!("{}: {} in {}", req.what, e, text)));
            if unsure {
                return;
            }
            let same = match &req.want {
                Expect::Is(v) => alike(v, &got),
                Expect::Stats(v) => match stats_of(&got) {
                    Some(g) => v.is_empty() || g.iter().zip(v).all(|(a, b)| close(*a, *b)),
                    None => false,
                },
                _ => unreachable!(),
            };
            if !same {
                fail("wrong-answer", &format!("{}: expected {:?}, got {}", req.what, req.want, text));
            }
            count("answers compared");
        }
    }
}

// ---------------------------------------------------------------- clients

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fate {
    Healthy,
    /// The connection is reset when so many bytes have been sent, or received.
    ResetUp(usize),
    ResetDown(usize),
    /// The sending side ends there.
    Cut(usize),
    /// Stops sending there until the others are done.
    Stall(usize),
    /// Sends everything and reads nothing until the others are done.
    Deaf,
}

pub struct Client {
    pub id: usize,
    pub reqs: Vec<Req>,
    pub fate: Fate,
    pub pipelined: bool,
    pub door: Listener,
    pub faulty: bool,
    /// Set when stalled clients may go on.
    pub go: Arc<net::Gate>,
}

impl Client {
    /// Runs to the end. Every request of a healthy client is answered or, where that is allowed, refused by closing.
    pub fn run(self) {
        let mut next = 0;
        let mut conns = 0;
        let mut unsure = false;
        while next < self.reqs.len() {
            let c = Conn::new(self.id * 64 + conns);
            conns += 1;
            self.door.connect(&c);
            next = self.connection(&c, next, &mut unsure);
        }
    }

    /// One connection; returns the next request to ask.
    fn connection(&self, c: &Arc<Conn>, from: usize, unsure: &mut bool) -> usize {
        let reqs = &self.reqs;
        let (mut sending, mut at, mut up, mut down) = (from, 0, 0usize, 0usize);
        let mut answered = from;
        let mut got: Vec<u8> = vec![];
        let total: usize = reqs[from..].iter().map(|r| r.bytes.len()).sum();
        let fate = match self.fate {
            Fate::ResetUp(n) => Fate::ResetUp(n % (total + 1)),
            Fate::Cut(n) => Fate::Cut(n % (total + 1)),
            Fate::Stall(n) => Fate::Stall(n % (total + 1)),
            f => f,
        };
        let mut stalled = false;
        loop {
            simcore::step("client");
            let mut moved = false;
            // a connection that ends after a request takes no more
            let done_sending = sending >= reqs.len() || (sending > from && at == 0 && reqs[sending - 1].last);
            let may = !done_sending && (self.pipelined || answered == sending || at > 0);
            if may && !stalled {
                let b = &reqs[sending].bytes[at..];
                let mut n = if flip("whole request", 500) { b.len() } else { 1 + decide("piece", b.len().min(200)) };
                if let Fate::ResetUp(k) | Fate::Cut(k) | Fate::Stall(k) = fate {
                    n = n.min(k - up);
                    if n == 0 {
                        match fate {
                            Fate::ResetUp(_) => {
                                count("fault connection reset");
                                c.reset();
                                return reqs.len();
                            }
                            Fate::Cut(_) => {
                                count("fault connection cut");
                                c.half_close();
                            }
                            _ => {
                                count("fault client stalled");
                                self.go.wait();
                                c.reset();
                                return reqs.len();
                            }
                        }
                        stalled = true;
                    }
                }
                if !stalled {
                    match c.send(&b[..n]) {
                        None => {}
                        Some(0) => {}
                        Some(k) => {
                            moved = true;
                            at += k;
                            up += k;
                            if at == reqs[sending].bytes.len() {
                                at = 0;
                                sending += 1;
                            }
                        }
                    }
                }
            }
            if fate == Fate::Deaf && !self.go.open() {
                if !moved && (done_sending || !c.can_send()) {
                    count("fault client not reading");
                    self.go.wait();
                    if flip("deaf leaves", 500) {
                        c.reset();
                        return reqs.len();
                    }
                }
                continue;
            }
            if let Some(b) = c.recv(1 + decide("receive", 4000)) {
                moved = true;
                down += b.len();
                got.extend(b);
                if let Fate::ResetDown(n) = fate {
                    if down >= n {
                        count("fault connection reset while answering");
                        c.reset();
                        return reqs.len();
                    }
                }
                while let Some(a) = take_answer(&mut got) {
                    // the server may give up on a request that is not complete
                    if answered >= sending && !(answered == sending && at > 0) {
                        fail("unasked", &format!("an answer without a request: {} {}", a.status, String::from_utf8_lossy(&a.body)));
                    }
                    let r = &reqs[answered];
                    if answered == sending && matches!(r.want, Expect::Is(_) | Expect::Stats(_)) && a.status < 400 {
                        fail("early", &format!("{} was answered before it was sent", r.what));
                    }
                    if self.fate == Fate::Healthy || a.status < 400 {
                        check_answer(r, &a, r.tracker && *unsure);
                    }
                    answered += 1;
                    if answered > sending {
                        // nothing more of it will be read
                        c.reset();
                        return answered;
                    }
                }
                continue;
            }
            if c.can_recv() {
                // the end
                // hyper closes without flushing when it answers a request it did not read to the end
                let lost = reqs.get(answered).map_or(false, |r| self.faulty || matches!(r.want, Expect::Refused | Expect::Anything));
                if lost && !got.is_empty() {
                    count("refusals cut short by the http library");
                }
                if !got.is_empty() && self.fate == Fate::Healthy && !lost {
                    fail("cut-answer", &format!("the connection ended within the answer to {}: {:?}", reqs.get(answered).map_or("nothing", |r| &r.what[..]), String::from_utf8_lossy(&got)));
                }
                if self.fate != Fate::Healthy {
                    return reqs.len();
                }
                return self.closed(from, answered, sending, at, unsure);
            }
            if answered >= reqs.len() && sending >= reqs.len() {
                // all done: leave, one way or another
                if flip("leave politely", 500) {
                    c.half_close();
                    while !c.can_recv() {
                        c.wait();
                    }
                } else {
                    c.reset();
                }
                return reqs.len();
            }
            if !moved {
                let could = may && !stalled && c.can_send();
                if !could {
                    c.wait();
                }
            }
        }
    }

    /// The server closed the connection. Was it allowed to?
    fn closed(&self, from: usize, answered: usize, sending: usize, at: usize, unsure: &mut bool) -> usize {
        let reqs = &self.reqs;
        let sent = sending + (at > 0) as usize;
        if answered > from && reqs[answered - 1].may_close {
            // those sent behind it are lost
            count("closed after a request that allows it");
            if reqs[answered..sent.max(answered)].iter().any(|r| r.tracker) {
                *unsure = true;
            }
            return answered;
        }
        if answered >= reqs.len() {
            fail("closed", "the server closed a connection that asked nothing wrong");
        }
        let r = &reqs[answered];
        match r.want {
            Expect::Refused | Expect::Anything if sent > answered => {
                count("malformed requests refused by closing");
            }
            _ if self.faulty && sent > answered => {
                count("refused as data could not be read");
                *unsure |= r.tracker;
            }
            _ => fail("closed", &format!("the server closed the connection instead of answering {} (request {} of {}, {} sent)", r.what, answered, reqs.len(), sent)),
        }
        if reqs[answered + 1..sent.max(answered + 1)].iter().any(|r| r.tracker) {
            *unsure = true;
        }
        answered + 1
    }
}

// ---------------------------------------------------------------- trackers

pub fn numbers(t: &BayesCategoricalTracker<Flat>) -> Vec<f64> {
    let s = t.kl_div_stats();
    vec![t.kl_div(), s.max, s.min, s.nz_count as f64, s.moment1_nz, s.moment2_nz, s.sequence_len as f64]
}

/// The statistics of a window that holds these paths; empty if rounding decides them.
pub fn window_stats(x: &Site, w: usize, paths: &[Path]) -> Vec<f64> {
    quiet(&x.c, || {
        let mut t = BayesCategoricalTracker::new(w, x.r.clone());
        let held = if w == 0 { paths } else { &paths[paths.len().saturating_sub(w)..] };
        for p in held {
            t.add_path(p.clone());
        }
        if t.all_node_kl().iter().any(|(k, _)| *k > 1e-12 && *k < 1e-8) {
            return vec![];
        }
        numbers(&t)
    })
}

/// What one tracker name holds.
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug, PartialOrd, Ord)]
pub struct Model {
    pub exists: bool,
    pub windows: BTreeMap<usize, Vec<usize>>,
}

/// A client's own tracker, used by it alone.
struct Own {
    name: String,
    m: Model,
    paths: Vec<Path>,
}

fn track(x: &Site, o: &mut Own, last: bool) -> Req {
    let n = &o.name;
    let w = [0usize, 1, 2, 4, 1_000_000_000_000][decide("own window", 5)];
    match decide("track", 5) {
        0 => {
            let fresh = !o.m.windows.contains_key(&w);
            o.m.exists = true;
            o.m.windows.entry(w).or_default();
            let t = [format!("/track/add?window_size={}&tracker_name={}", w, n), format!("/track/add?tracker_name={}&window_size={}", n, w)][decide("order", 2)].clone();
            ok(format!("add window {} to {}", w, n), raw("POST", &t, &[], if flip("empty body", 300) { Some(b"") } else { None }, last), Expect::Is(json!({"AddTracker": {"success": fresh}})), true, last)
        }
        1 | 2 => {
            let q = query(&x.c);
            let t = format!("/track/point?tracker_name={}", n);
            let want = if o.m.exists {
                o.paths.push(quiet(&x.c, || x.r.path(&&q[..])).unwrap_or_else(|e| fail("query-failed", &format!("path: {}", e))));
                for v in o.m.windows.values_mut() {
                    v.push(o.paths.len() - 1);
                }
                json!({"TrackPath": {"success": !o.m.windows.is_empty()}})
            } else {
                json!({"Unknown": [n, null]})
            };
            ok(format!("track a point in {}", n), with_point("POST", &t, &q, last), Expect::Is(want), true, last)
        }
        _ => {
            let t = format!("/track/stats?window_size={}&tracker_name={}", w, n);
            let want = match o.m.windows.get(&w) {
                Some(v) => Expect::Stats(window_stats(x, w, &v.iter().map(|i| o.paths[*i].clone()).collect::<Vec<_>>())),
                None if o.m.exists => Expect::Is(json!({"Unknown": [n, w]})),
                None => Expect::Is(json!({"Unknown": [n, null]})),
            };
            ok(format!("statistics of window {} of {}", w, n), raw("GET", &t, &[], None, last), want, true, last)
        }
    }
}

// ---------------------------------------------------------------- C15

fn requests(x: &Site, own: &mut Own, n: usize, bad: usize) -> Vec<Req> {
    let mut v = vec![];
    let tracks = [350, 350, 350, 900][decide("how many track requests", 4)];
    for i in 0..n {
        if flip("malformed request", bad) {
            v.push(malformed(x));
            continue;
        }
        let last = flip("last request of a connection", 100) || (i + 1 == n && flip("close at end", 300));
        v.push(if flip("track request", tracks) { track(x, own, last) } else { ask(x, last) });
    }
    v
}

pub fn c15() {
    let mut x = site(1 + decide("server threads", 3), true);
    net::no_panics();
    let n = 1 + decide("clients", 3);
    let bad = [0, 0, 200, 400][decide("malformed rate", 4)];
    x.faulty = flip("data fails", 150);
    let go = net::Gate::new();
    let clients: Vec<Client> = (0..n)
        .map(|i| {
            let mut own = Own { name: format!("own{}", i), m: Model::default(), paths: vec![] };
            let k = 1 + if flip("long session", 150) { 5 + decide("many requests", 12) } else { decide("requests", 5) };
            let reqs = requests(&x, &mut own, k, bad);
            // now and then a client that leaves in the middle
            let fate = if flip("bad client", 150) { fate() } else { Fate::Healthy };
            Client { id: i, reqs, fate, pipelined: flip("pipelined", 500), door: x.door.clone(), faulty: x.faulty, go: Arc::clone(&go) }
        })
        .collect();
    if x.faulty {
        count("runs with failing data");
        x.c.c.set_fault(Fault::Prob([20, 100][decide("fault rate", 2)]));
    }
    let (good, rest): (Vec<Client>, Vec<Client>) = clients.into_iter().partition(|c| c.fate == Fate::Healthy);
    let rest = start(rest);
    for t in start(good) {
        simcore::join(t);
    }
    go.release();
    for t in rest {
        simcore::join(t);
    }
}

fn start(v: Vec<Client>) -> Vec<usize> {
    v.into_iter().map(|c| simcore::spawn(&format!("client{}", c.id), false, move || c.run())).collect()
}

fn fate() -> Fate {
    match decide("fate", 6) {
        0 => Fate::ResetUp(decide("at byte", 4000)),
        1 => Fate::ResetDown(1 + decide("at byte", 600)),
        2 => Fate::Cut(decide("at byte", 4000)),
        3 | 4 => Fate::Stall(decide("at byte", 4000)),
        _ => Fate::Deaf,
    }
}

// ---------------------------------------------------------------- C16

/// Asks one thing on a connection of its own.
pub fn ask_once(door: &Listener, id: usize, bytes: Vec<u8>) -> Answer {
    let c = Conn::new(id);
    door.connect(&c);
    let (mut at, mut got) = (0, vec![]);
    loop {
        simcore::step("client");
        if at < bytes.len() {
            if let Some(n) = c.send(&bytes[at..]) {
                at += n;
            }
        }
        if let Some(b) = c.recv(1 << 20) {
            got.extend(b);
            if let Some(a) = take_answer(&mut got) {
                c.reset();
                return a;
            }
            continue;
        }
        if c.can_recv() {
            fail("closed", &format!("the server closed the connection instead of answering {:?}", String::from_utf8_lossy(&bytes)));
        }
        if at >= bytes.len() || !c.can_send() {
            c.wait();
        }
    }
}

fn tasks(x: &Site) -> usize {
    x.rt.as_ref().unwrap().metrics().num_alive_tasks()
}

/// Waits until nothing is left to poll and the number of tasks is the expected one.
fn settle(x: &Site, want: usize, what: &str) {
    for _ in 0..4000 {
        if simcore::tasks::pending() == 0 && tasks(x) == want {
            let p = simcore::tasks::polls();
            for _ in 0..20 {
                simcore::yield_now("settling");
            }
            if simcore::tasks::polls() != p {
                fail("spinning", &format!("{}: tasks keep running with nothing to do", what));
            }
            return;
        }
        simcore::yield_now("settling");
    }
    fail("leftover", &format!("{}: {} tasks are left, {} expected, {} waiting to run", what, tasks(x), want, simcore::tasks::pending()));
}

/// A caller that uses the library's interface to the trackers: the default one and one named "aside".
fn abandoned(x: &Site, shared: &mut usize) -> tokio::task::JoinHandle<()> {
    use serve_goko::api::*;
    let mut rd = x.core.as_ref().unwrap().reader();
    let reqs: Vec<_> = (0..1 + decide("calls", 5))
        .map(|_| {
            let aside = flip("aside", 600);
            let tracker_name = if aside { Some("aside".to_string()) } else { None };
            let request = match decide("call", 4) {
                0 if aside => TrackingRequestChoice::AddTracker(AddTrackerRequest { window_size: 95 }),
                1 => TrackingRequestChoice::CurrentStats(CurrentStatsRequest { window_size: 97 }),
                _ => {
                    *shared += 1;
                    TrackingRequestChoice::TrackPoint(TrackPointRequest { point: query(&x.c) })
                }
            };
            GokoRequest::Tracking(TrackingRequest { tracker_name, request })
        })
        .collect();
    x.h.spawn(async move {
        for r in reqs {
            let _ = rd.process(r).await;
            simcore::step("client task");
            tokio::task::yield_now().await;
        }
    })
}

pub fn c16() {
    let mut x = site(1 + decide("server threads", 3), true);
    net::no_panics();
    let a = ask_once(&x.door, 900, raw("POST", "/track/add?window_size=97", &[], None, false));
    if a.body != b"{\"AddTracker\":{\"success\":true}}" {
        fail("wrong-answer", &format!("adding the first window: {} {}", a.status, String::from_utf8_lossy(&a.body)));
    }
    let n = 2 + decide("clients", 4);
    x.faulty = flip("data fails", 200);
    let go = net::Gate::new();
    let mut shared = 0;
    let clients: Vec<Client> = (0..n)
        .map(|i| {
            let mut own = Own { name: format!("own{}", i), m: Model::default(), paths: vec![] };
            let k = 1 + decide("requests", 4);
            let mut reqs = requests(&x, &mut own, k, [100, 400, 800][decide("malformed rate", 3)]);
            while flip("track on the default", 250) {
                let at = decide("when", reqs.len() + 1);
                let q = query(&x.c);
                reqs.insert(at, ok("tracking a point".into(), with_point("POST", "/track/point", &q, false), Expect::Is(json!({"TrackPath": {"success": true}})), false, false));
                shared += 1;
            }
            let fate = if flip("bad client", 650) { fate() } else { Fate::Healthy };
            Client { id: i, reqs, fate, pipelined: flip("pipelined", 500), door: x.door.clone(), faulty: x.faulty, go: Arc::clone(&go) }
        })
        .collect();
    if x.faulty {
        count("runs with failing data");
        x.c.c.set_fault(Fault::Prob([20, 100, 500][decide("fault rate", 3)]));
    }
    // callers in the same process, given up at an arbitrary moment
    let callers: Vec<_> = (0..[0, 0, 1, 3][decide("callers in the process", 4)]).map(|_| abandoned(&x, &mut shared)).collect();
    let (good, rest): (Vec<Client>, Vec<Client>) = clients.into_iter().partition(|c| c.fate == Fate::Healthy);
    let rest = start(rest);
    for t in &callers {
        for _ in 0..decide("abort after", 120) {
            simcore::step("main");
        }
        if !t.is_finished() {
            count("fault request cancelled");
            t.abort();
        }
    }
    for t in start(good) {
        simcore::join(t);
    }
    // a late client is served while others stall
    x.c.c.set_fault(Fault::None);
    let late = ask(&x, false);
    check_answer(&late, &ask_once(&x.door, 901, late.bytes.clone()), false);
    go.release();
    for t in rest {
        simcore::join(t);
    }
    let q = query(&x.c);
    let a = ask_once(&x.door, 902, raw("POST", "/track/point", &[], Some(&rmp_serde::to_vec(&q).unwrap()), false));
    if a.body != b"{\"TrackPath\":{\"success\":true}}" {
        fail("tracker-lost", &format!("tracking a point after all clients left: {} {}", a.status, String::from_utf8_lossy(&a.body)));
    }
    let a = ask_once(&x.door, 903, raw("GET", "/track/stats?window_size=97", &[], None, false));
    let v: Value = serde_json::from_slice(&a.body).unwrap_or(Value::Null);
    if !stats_of(&v).map_or(false, |s| s[6] >= 1.0 && s[6] <= (1 + shared) as f64) {
        fail("tracker-lost", &format!("the tracker's statistics after all clients left: {} {}", a.status, String::from_utf8_lossy(&a.body)));
    }
    // so do those with a name
    let names = decide("named trackers", n + 1);
    let aside = !callers.is_empty() && flip("aside afterwards", 700);
    for i in 0..names + aside as usize {
        let own = if i == names { "aside".to_string() } else { format!("own{}", i) };
        let a = ask_once(&x.door, 904 + 3 * i, raw("POST", &format!("/track/add?window_size=96&tracker_name={}", own), &[], None, false));
        let b = ask_once(&x.door, 905 + 3 * i, raw("POST", &format!("/track/point?tracker_name={}", own), &[], Some(&rmp_serde::to_vec(&q).unwrap()), false));
        let c = ask_once(&x.door, 906 + 3 * i, raw("GET", &format!("/track/stats?window_size=96&tracker_name={}", own), &[], None, false));
        let v: Value = serde_json::from_slice(&c.body).unwrap_or(Value::Null);
        if a.body != b"{\"AddTracker\":{\"success\":true}}" || b.body != b"{\"TrackPath\":{\"success\":true}}" || stats_of(&v).map(|s| s[6]) != Some(1.0) {
            fail("tracker-lost", &format!("a new window on tracker {} after all clients left: {} {} {}", own, String::from_utf8_lossy(&a.body), String::from_utf8_lossy(&b.body), String::from_utf8_lossy(&c.body)));
        }
    }
    // everything but the server, the default tracker and named trackers goes with the connections
    simcore::stop_faults();
    let most = 2 + n + !callers.is_empty() as usize;
    for _ in 0..4000 {
        if simcore::tasks::pending() == 0 && tasks(&x) <= most {
            break;
        }
        simcore::yield_now("settling");
    }
    let left = tasks(&x);
    if left > most {
        fail("leftover", &format!("all clients are gone and {} tasks are left, at most {} are expected", left, most));
    }
    settle(&x, left, "all clients gone");
    x.door.close();
    x.core = None;
    settle(&x, 0, "the server was shut down");
}

// ---------------------------------------------------------------- C17

const NAMES: [Option<&str>; 3] = [None, Some("a"), Some("b")];

#[derive(Clone, Debug)]
enum Op {
    Add(usize),
    Point(usize),
    /// A path handed over directly.
    Path(usize),
    Stats(usize),
}
#[derive(Clone, Debug, PartialEq)]
enum Res {
    Added(bool),
    Tracked(bool),
    Stats(Vec<f64>),
    NoName,
    NoWindow,
}
#[derive(Clone, Debug)]
struct Event {
    client: usize,
    name: usize,
    op: Op,
    call: u64,
    ret: Option<u64>,
    res: Option<Res>,
}
struct History {
    clock: u64,
    events: Vec<Event>,
}
type Book = Arc<net::Shared<History>>;

fn call(b: &Book, client: usize, name: usize, op: &Op) -> usize {
    let h = b.get();
    h.clock += 1;
    h.events.push(Event { client, name, op: op.clone(), call: h.clock, ret: None, res: None });
    h.events.len() - 1
}
fn ret(b: &Book, i: usize, v: &Value) {
    let h = b.get();
    h.clock += 1;
    let e = &mut h.events[i];
    let name = NAMES[e.name];
    let bad = |e: &Event| -> ! { fail("wrong-answer", &format!("{:?} on tracker {:?} was answered with {}", e.op, name, v)) };
    let flag = |k: &str| v.get(k).and_then(|x| x.get("success")).and_then(|x| x.as_bool());
    let res = match &e.op {
        _ if v.get("Unknown").is_some() => {
            if *v == json!({"Unknown": [name, null]}) {
                Res::NoName
            } else if let Op::Stats(w) = e.op {
                if *v != json!({"Unknown": [name, w]}) {
                    bad(e)
                }
                Res::NoWindow
            } else {
                bad(e)
            }
        }
        Op::Add(_) => Res::Added(flag("AddTracker").unwrap_or_else(|| bad(e))),
        Op::Point(_) | Op::Path(_) => Res::Tracked(flag("TrackPath").unwrap_or_else(|| bad(e))),
        Op::Stats(_) => Res::Stats(stats_of(v).unwrap_or_else(|| bad(e))),
    };
    e.ret = Some(h.clock);
    e.res = Some(res);
}

struct Pool {
    pts: Vec<Vec<f32>>,
    paths: Vec<Path>,
}

fn draw_op(n: usize, direct: bool) -> (usize, Op) {
    let name = [0, 1, 1, 2][decide("name", 4)];
    let w = [0usize, 1, 2, 3][decide("window", 4)];
    let op = match decide("op", 8) {
        0 | 1 => Op::Add(w),
        2 | 3 | 4 => {
            if direct && flip("as a path", 300) {
                Op::Path(decide("point", n))
            } else {
                Op::Point(decide("point", n))
            }
        }
        _ => Op::Stats(w),
    };
    (name, op)
}

fn target(name: usize, op: &Op) -> (&'static str, String) {
    let n = NAMES[name].map(|n| format!("tracker_name={}", n)).unwrap_or_default();
    match op {
        Op::Add(w) => ("POST", format!("/track/add?window_size={}&{}", w, n)),
        Op::Stats(w) => ("GET", format!("/track/stats?{}&window_size={}", n, w)),
        _ => ("POST", format!("/track/point?{}", n)),
    }
}

/// A client over a connection. May lose the connection, and go on with another.
fn over_http(id: usize, ops: Vec<(usize, Op)>, pool: Arc<Pool>, door: Listener, book: Book, faulty: bool) {
    let mut conns = 0;
    let mut conn: Option<Arc<Conn>> = None;
    let mut got = vec![];
    for (name, op) in ops {
        let c = match conn.take() {
            Some(c) => c,
            None => {
                let c = Conn::new(id * 64 + conns);
                conns += 1;
                door.connect(&c);
                got.clear();
                c
            }
        };
        let (m, t) = target(name, &op);
        let bytes = match &op {
            Op::Point(p) | Op::Path(p) => with_point(m, &t, &pool.pts[*p], false),
            _ => raw(m, &t, &[], None, false),
        };
        let lose = if flip("lose connection", 120) { Some(decide("lose at", 3)) } else { None };
        let e = call(&book, id, name, &op);
        let mut at = 0;
        let stop = if lose == Some(0) { decide("lose at byte", bytes.len()) } else { bytes.len() };
        let mut lost = false;
        loop {
            simcore::step("client");
            let full = at >= stop;
            if !full {
                let n = if flip("whole request", 600) { stop - at } else { 1 + decide("piece", (stop - at).min(100)) };
                if let Some(n) = c.send(&bytes[at..at + n]) {
                    at += n;
                }
            }
            if full && (lose == Some(0) || lose == Some(1)) {
                for _ in 0..decide("lose after", 40) {
                    simcore::step("client");
                }
                lost = true;
                break;
            }
            if let Some(b) = c.recv(1 << 16) {
                got.extend(b);
                if lose == Some(2) {
                    lost = true;
                    break;
                }
                if let Some(a) = take_answer(&mut got) {
                    if a.status != 200 {
                        fail("refused", &format!("{:?} on {:?} was answered with {} {}", op, NAMES[name], a.status, String::from_utf8_lossy(&a.body)));
                    }
                    let v: Value = serde_json::from_slice(&a.body).unwrap_or_else(|x| fail("garbled", &format!("{}", x)));
                    ret(&book, e, &v);
                    conn = Some(Arc::clone(&c));
                    break;
                }
                continue;
            }
            if c.can_recv() {
                if !faulty {
                    fail("closed", &format!("the server closed the connection instead of answering {:?} on {:?}", op, NAMES[name]));
                }
                count("refused as data could not be read");
                lost = true;
                break;
            }
            if at >= stop || !c.can_send() {
                if !(at >= stop && matches!(lose, Some(0) | Some(1))) {
                    c.wait();
                }
            }
        }
        if lost {
            count("fault connection lost while tracking");
            c.reset();
        }
    }
    if let Some(c) = conn {
        c.half_close();
    }
}

/// Runs one operation through the library interface of the server.
async fn direct(x: &mut serve_goko::core::CoreReader<Flat, Vec<f32>>, name: usize, op: &Op, pool: &Pool) -> Option<Value> {
    use serve_goko::api::*;
    let request = match op {
        Op::Add(w) => TrackingRequestChoice::AddTracker(AddTrackerRequest { window_size: *w }),
        Op::Stats(w) => TrackingRequestChoice::CurrentStats(CurrentStatsRequest { window_size: *w }),
        Op::Point(p) => TrackingRequestChoice::TrackPoint(TrackPointRequest { point: pool.pts[*p].clone() }),
        Op::Path(p) => TrackingRequestChoice::TrackPath(TrackPathRequest { path: pool.paths[*p].clone() }),
    };
    let r = GokoRequest::Tracking(TrackingRequest { tracker_name: NAMES[name].map(|s| s.to_string()), request });
    match x.process(r).await {
        Ok(GokoResponse::Tracking(t)) => Some(serde_json::to_value(&t).unwrap()),
        Ok(_) => fail("wrong-answer", "a tracking request got another kind of answer"),
        Err(_) => None,
    }
}

pub fn c17() {
    let mut x = site(1 + decide("server threads", 3), true);
    net::no_panics();
    let n = 2 + decide("points", 4);
    let pts: Vec<Vec<f32>> = (0..n).map(|_| query(&x.c)).collect();
    let paths: Vec<Path> = quiet(&x.c, || pts.iter().map(|q| x.r.path(&&q[..]).unwrap()).collect());
    let pool = Arc::new(Pool { pts, paths });
    let book: Book = Arc::new(net::Shared::new(History { clock: 0, events: vec![] }));
    x.faulty = flip("data fails", 100);
    if x.faulty {
        count("runs with failing data");
        x.c.c.set_fault(Fault::Prob(40));
    }
    let clients = 2 + decide("clients", 3);
    let mut ts = vec![];
    let mut direct_tasks = vec![];
    for i in 0..clients {
        let is_direct = flip("direct client", 350);
        let ops: Vec<(usize, Op)> = (0..1 + decide("ops", 6)).map(|_| draw_op(n, is_direct)).collect();
        let (pool, book) = (Arc::clone(&pool), Arc::clone(&book));
        if is_direct {
            count("clients through the library");
            let mut rd = x.core.as_ref().unwrap().reader();
            let faulty = x.faulty;
            direct_tasks.push(x.h.spawn(async move {
                for (name, op) in ops {
                    let e = call(&book, i, name, &op);
                    match direct(&mut rd, name, &op, &pool).await {
                        Some(v) => ret(&book, e, &v),
                        None if faulty => {}
                        None => fail("refused", &format!("{:?} on {:?} failed", op, NAMES[name])),
                    }
                    // let others in between
                    simcore::step("client task");
                    tokio::task::yield_now().await;
                }
            }));
        } else {
            let (door, faulty) = (x.door.clone(), x.faulty);
            ts.push(simcore::spawn(&format!("client{}", i), false, move || over_http(i, ops, pool, door, book, faulty)));
        }
    }
    // some direct clients are given up at an arbitrary moment
    for t in &direct_tasks {
        if flip("abort task", 300) {
            for _ in 0..decide("abort after", 200) {
                simcore::step("main");
            }
            if !t.is_finished() {
                count("fault request cancelled");
                t.abort();
            }
        }
    }
    for t in ts {
        simcore::join(t);
    }
    for t in &direct_tasks {
        let mut n = 0;
        while !t.is_finished() {
            simcore::yield_now("main");
            n += 1;
            if n > 100_000 {
                fail("stuck", "a client through the library never got its answer");
            }
        }
    }
    // what the trackers hold in the end
    x.c.c.set_fault(Fault::None);
    for name in 0..NAMES.len() {
        for w in 0..4usize {
            let op = Op::Stats(w);
            let (m, t) = target(name, &op);
            let e = call(&book, 99, name, &op);
            let a = ask_once(&x.door, 1000 + name * 8 + w, raw(m, &t, &[], None, false));
            if a.status != 200 {
                fail("refused", &format!("{:?} on {:?} was answered with {}", op, NAMES[name], a.status));
            }
            ret(&book, e, &serde_json::from_slice(&a.body).unwrap_or_else(|x| fail("garbled", &format!("{}", x))));
        }
    }
    let events = std::mem::take(&mut book.get().events);
    let mut known: BTreeMap<(usize, Vec<usize>), Vec<f64>> = BTreeMap::new();
    let mut h = 0u64;
    for name in 0..NAMES.len() {
        let ev: Vec<Event> = events.iter().filter(|e| e.name == name).cloned().collect();
        for e in &ev {
            h = h.wrapping_mul(1_000_003) ^ (e.client as u64 * 64 + e.ret.is_some() as u64 * 32 + matches!(e.op, Op::Add(_)) as u64);
        }
        linearizable(&x, name, &ev, &pool, &mut known);
    }
    observe_state(h);
}

struct Search<'a> {
    x: &'a Site,
    ev: &'a [Event],
    pool: &'a Pool,
    known: &'a mut BTreeMap<(usize, Vec<usize>), Vec<f64>>,
    seen: std::collections::HashSet<(Vec<u8>, Model)>,
    budget: usize,
    /// The longest consistent prefix, for the report.
    best: usize,
}

impl<'a> Search<'a> {
    fn stats(&mut self, w: usize, held: &[usize]) -> Vec<f64> {
        let mut k = held.to_vec();
        k.sort_unstable();
        if let Some(v) = self.known.get(&(w, k.clone())) {
            return v.clone();
        }
        let paths: Vec<Path> = held.iter().map(|i| self.pool.paths[*i].clone()).collect();
        let v = window_stats(self.x, w, &paths);
        self.known.insert((w, k), v.clone());
        v
    }
    /// The effect of an operation on the model and whether its answer fits.
    fn apply(&mut self, m: &mut Model, e: &Event, stage: u8) -> bool {
        let is = |r: Res| e.res.as_ref().map_or(true, |x| *x == r);
        match e.op {
            Op::Add(_) if stage == 0 => {
                m.exists = true;
                true
            }
            _ if !m.exists => is(Res::NoName),
            Op::Add(w) => {
                let fresh = !m.windows.contains_key(&w);
                m.windows.entry(w).or_default();
                is(Res::Added(fresh))
            }
            Op::Point(p) | Op::Path(p) => {
                for (w, v) in m.windows.iter_mut() {
                    v.push(p);
                    if *w == 0 {
                        v.sort_unstable();
                    } else if v.len() > *w {
                        v.remove(0);
                    }
                }
                is(Res::Tracked(matches!(e.op, Op::Path(_)) || !m.windows.is_empty()))
            }
            Op::Stats(w) => match (m.windows.get(&w), &e.res) {
                (_, None) => true,
                (None, Some(r)) => *r == Res::NoWindow,
                (Some(v), Some(Res::Stats(got))) => {
                    if got[6] != v.len() as f64 {
                        return false;
                    }
                    let v = v.clone();
                    let want = self.stats(w, &v);
                    want.is_empty() || got.iter().zip(&want).all(|(a, b)| close(*a, *b))
                }
                _ => false,
            },
        }
    }
    fn go(&mut self, done: &mut Vec<u8>, m: &Model) -> bool {
        let full = |e: &Event| if matches!(e.op, Op::Add(_)) { 2u8 } else { 1 };
        let left = self.ev.iter().zip(done.iter()).filter(|(e, d)| e.ret.is_some() && **d < full(e)).count();
        self.best = self.best.max(self.ev.len() - left);
        if left == 0 {
            return true;
        }
        if self.budget == 0 || !self.seen.insert((done.clone(), m.clone())) {
            return false;
        }
        self.budget -= 1;
        let first = self.ev.iter().zip(done.iter()).filter(|(e, d)| **d < full(e)).filter_map(|(e, _)| e.ret).min().unwrap_or(u64::MAX);
        for i in 0..self.ev.len() {
            let e = &self.ev[i];
            if done[i] >= full(e) || e.call > first {
                continue;
            }
            let mut n = m.clone();
            let ev = e.clone();
            if !self.apply(&mut n, &ev, done[i]) {
                continue;
            }
            done[i] += 1;
            if self.go(done, &n) {
                return true;
            }
            done[i] -= 1;
        }
        false
    }
}

/// Is there an order of the operations on this tracker that explains all answers?
fn linearizable(x: &Site, name: usize, ev: &[Event], pool: &Pool, known: &mut BTreeMap<(usize, Vec<usize>), Vec<f64>>) {
    let mut s = Search { x, ev, pool, known, seen: Default::default(), budget: 200_000, best: 0 };
    let start = Model { exists: NAMES[name].is_none(), windows: BTreeMap::new() };
    let fits = s.go(&mut vec![0; ev.len()], &start);
    count("tracker histories checked");
    if !fits {
        if s.budget == 0 {
            count("tracker histories too wide to decide");
            return;
        }
        let (best, list) = (s.best, ev.iter().map(|e| format!("{}..{} client {} {:?} -> {:?}", e.call, e.ret.map_or("?".into(), |r| r.to_string()), e.client, e.op, e.res)).collect::<Vec<_>>());
        fail("not-linearizable", &format!("no order explains the answers on tracker {:?} (at most {} of {} operations fit):\n  {}", NAMES[name], best, ev.len(), list.join("\n  ")));
    }
}

// ---------------------------------------------------------------- C18

type Service = serve_goko::http::GokoHttp<Flat, MsgPackDense>;
struct Flight {
    svc: usize,
    fut: std::pin::Pin<Box<dyn std::future::Future<Output = Result<http::Response<hyper::Body>, serve_goko::errors::GokoClientError>>>>,
    body: Option<hyper::body::Sender>,
    rest: Vec<u8>,
    fails: bool,
    /// What was asked and the right answer, if the whole request gets through.
    want: Option<(String, Value)>,
    /// The body ended early, or the data may have failed.
    spoilt: bool,
}
struct Deck {
    svcs: Vec<Option<Service>>,
    flights: Vec<Flight>,
    /// Requests that are in flight for sure, and those that are being handed over, polled or dropped right now.
    out: Vec<u32>,
    maybe: Vec<u32>,
    /// How many flights there may be.
    cap: usize,
    /// The runtime ends, or has ended: requests may fail, or have to.
    down: bool,
    dead: bool,
    data_fails: bool,
}

fn load_is_right(d: &Deck, when: &str) {
    use tower::load::Load;
    // nothing else runs while the load is taken
    let _b = simcore::Busy::new();
    for (i, s) in d.svcs.iter().enumerate() {
        if let Some(s) = s {
            let (l, out, maybe) = (s.load(), d.out[i], d.maybe[i]);
            if l < out || l > out + maybe {
                let (sure, more) = (format!("{} requests are in flight", out), if maybe > 0 { format!(" and {} are starting or ending", maybe) } else { String::new() });
                drop(_b);
                fail("load", &format!("after {}: the load is {}, {}{}", when, l, sure, more));
            }
        }
    }
}

/// One operation. Returns false if there was nothing to do.
fn juggle(x: &Site, d: &mut Deck, h: &tokio::runtime::Handle, op: Option<usize>) {
    use std::future::Future;
    use std::task::{Context, Poll};
    let _g = h.enter();
    let n = d.flights.len();
    let what = op.unwrap_or_else(|| decide("deck op", 6));
    match what {
        0 | 1 if n < d.cap => {
            let i = decide("service", d.svcs.len());
            let mut want = None;
            let (method, target, b) = if flip("question", 600) {
                let (what, target, point, answer) = question(x);
                want = Some((what, answer));
                ("GET", target, point.map_or(vec![], |q| msgpack(&q)))
            } else {
                let (m, t) = [("GET", "/knn?k=2"), ("POST", "/track/point"), ("POST", "/track/add?window_size=3"), ("GET", "/nothing"), ("GET", "/track/stats?window_size=3")][decide("which request", 5)];
                (m, t.to_string(), msgpack(&query(&x.c)))
            };
            let mut spoilt = d.data_fails;
            let (body, sender, rest) = match decide("body", 4) {
                0 => (hyper::Body::from(b), None, vec![]),
                1 => {
                    spoilt |= !b.is_empty();
                    (hyper::Body::empty(), None, vec![])
                }
                _ => {
                    let (s, body) = hyper::Body::channel();
                    (body, Some(s), b)
                }
            };
            let req = http::Request::builder().method(method).uri(target).body(body).unwrap();
            // one caller at a time has the service
            if let Some(mut s) = d.svcs[i].take() {
                use tower::Service;
                d.maybe[i] += 1;
                let fut = Box::pin(s.call(req));
                d.svcs[i] = Some(s);
                d.maybe[i] -= 1;
                d.out[i] += 1;
                let dead = d.dead;
                d.flights.push(Flight { svc: i, fut, body: sender, rest, fails: dead, want, spoilt });
                load_is_right(d, "a request was handed over");
                count("requests submitted");
            }
        }
        2 | 3 if n > 0 => {
            let i = decide("flight", n);
            let mut f = d.flights.swap_remove(i);
            let w = futures::task::noop_waker();
            d.out[f.svc] -= 1;
            d.maybe[f.svc] += 1;
            let got = f.fut.as_mut().poll(&mut Context::from_waker(&w));
            d.maybe[f.svc] -= 1;
            match got {
                Poll::Pending => {
                    d.out[f.svc] += 1;
                    d.flights.push(f);
                    count("requests polled before they were ready");
                    load_is_right(d, "a request was polled and is not ready");
                }
                Poll::Ready(r) => {
                    let whole = !f.spoilt && !d.down && !f.fails;
                    if let (Some((what, _)), Ok(resp)) = (&f.want, &r) {
                        observe_state(resp.status().as_u16() as u64 * 31 + what.len() as u64);
                    }
                    let r = r.map(|resp| {
                        let (head, body) = resp.into_parts();
                        let bytes = futures::executor::block_on(hyper::body::to_bytes(body)).unwrap_or_else(|e| fail("garbled", &format!("an answer cannot be read: {}", e)));
                        if let Some((what, want)) = &f.want {
                            let got: Option<Value> = serde_json::from_slice(&bytes).ok();
                            let same = head.status == 200 && got.as_ref().map_or(false, |g| alike(want, g));
                            if !same && (whole || head.status == 200) {
                                fail("wrong-answer", &format!("{}: expected {}, got {} {}", what, want, head.status, String::from_utf8_lossy(&bytes)));
                            }
                            count("answers compared");
                        }
                    });
                    if let (Some((what, _)), Err(e), true) = (&f.want, &r, whole) {
                        fail("refused", &format!("{}: {}", what, e));
                    }
                    if r.is_err() {
                        count("requests that failed");
                    } else if f.fails {
                        fail("impossible", "a request to a dead service was answered");
                    } else {
                        count("requests answered");
                    }
                    // the future is still there, but done
                    load_is_right(d, if r.is_ok() { "a request was answered" } else { "a request failed" });
                    drop(f);
                    load_is_right(d, "a finished request was dropped");
                }
            }
        }
        4 if n > 0 => {
            let i = decide("flight", n);
            let f = d.flights.swap_remove(i);
            let svc = f.svc;
            d.out[svc] -= 1;
            d.maybe[svc] += 1;
            count("fault request dropped in flight");
            drop(f);
            d.maybe[svc] -= 1;
            load_is_right(d, "a request was dropped");
        }
        _ => {
            if let Some(i) = d.flights.iter().position(|f| f.body.is_some()) {
                let mut f = d.flights.swap_remove(i);
                feed(&mut f);
                d.flights.push(f);
                load_is_right(d, "a body moved on");
            }
        }
    }
}

fn feed(f: &mut Flight) {
    let mut s = f.body.take().unwrap();
    match decide("feed", 5) {
        0 => {
            count("fault body aborted");
            f.spoilt = true;
            s.abort();
        }
        1 | 2 if f.rest.len() > 1 => {
            let n = 1 + decide("feed size", f.rest.len() - 1);
            let b: Vec<u8> = f.rest.drain(..n).collect();
            if let Err(b) = s.try_send_data(b.into()) {
                let mut v = b.to_vec();
                v.append(&mut f.rest);
                f.rest = v;
            }
            f.body = Some(s);
        }
        _ => {
            if f.rest.is_empty() {
                drop(s);
            } else if let Err(b) = s.try_send_data(std::mem::take(&mut f.rest).into()) {
                f.rest = b.to_vec();
                f.body = Some(s);
            }
        }
    }
}

pub fn c18() {
    in_flight(false);
}
/// The services themselves: a request whose body breaks off is not the end of them.
pub fn c15_services() {
    in_flight(true);
}
/// The services themselves, without connections that end when a request fails.
pub fn c16_services() {
    in_flight(true);
}
fn in_flight(and_after: bool) {
    let mut x = site(1 + decide("server threads", 3), false);
    net::no_panics();
    let n = 1 + decide("services", 2);
    let mut make = MakeGokoHttp::<Flat, MsgPackDense>::new(Arc::clone(x.core.as_ref().unwrap()));
    let svcs: Vec<Option<Service>> = {
        let _g = x.h.enter();
        (0..n)
            .map(|_| {
                let f = tower::Service::<()>::call(&mut make, ());
                futures::executor::block_on(f).ok()
            })
            .collect()
    };
    let deck = Arc::new(net::Shared::new(Deck { svcs, flights: vec![], out: vec![0; n], maybe: vec![0; n], cap: 12, down: false, dead: false, data_fails: false }));
    load_is_right(deck.get(), "the start");
    if flip("data fails", 200) {
        deck.get().data_fails = true;
        x.c.c.set_fault(Fault::Prob(50));
    }
    let mut rt = x.rt.take();
    let x = Arc::new(net::Shared::new(x));
    if !and_after && flip("many requests", 60) {
        // far more than usual wait at the same time
        count("runs with many requests in flight");
        let more = 50 + decide("how many requests", 300);
        deck.get().cap += more;
        for _ in 0..more {
            juggle(x.get(), deck.get(), &x.get().h, Some(0));
        }
    }
    let ts: Vec<usize> = (0..1 + decide("callers", 3))
        .map(|i| {
            let (deck, x, h) = (Arc::clone(&deck), Arc::clone(&x), x.get().h.clone());
            simcore::spawn(&format!("caller{}", i), false, move || {
                for _ in 0..3 + decide("turns", 25) {
                    juggle(x.get(), deck.get(), &h, None);
                    for _ in 0..decide("pause", 12) {
                        simcore::step("caller");
                        load_is_right(deck.get(), "other tasks ran");
                    }
                }
            })
        })
        .collect();
    if flip("runtime dies", 250) {
        for _ in 0..decide("dies after", 300) {
            simcore::step("main");
        }
        let mut tries = 0;
        while simcore::tasks::pending() > 0 && tries < 500 {
            simcore::yield_now("main");
            tries += 1;
        }
        if simcore::tasks::pending() == 0 {
            count("fault runtime shut down");
            deck.get().down = true;
            rt.take().unwrap().shutdown_background();
            deck.get().dead = true;
            load_is_right(deck.get(), "the tasks of the services were gone");
        }
    }
    for t in ts {
        simcore::join(t);
    }
    // let everything finish: bodies end, all futures complete
    let d = deck.get();
    let x = x.get();
    for f in d.flights.iter_mut() {
        f.spoilt |= f.body.is_some() && !f.rest.is_empty();
        f.body = None;
    }
    let mut turns = 0;
    while !d.flights.is_empty() {
        juggle(x, d, &x.h, Some(2));
        simcore::yield_now("main");
        turns += 1;
        if turns > 60_000 {
            fail("stuck", &format!("{} requests never complete", d.flights.len()));
        }
    }
    load_is_right(d, "everything was over");
    if and_after && !d.down {
        // whatever failed before, the service still serves
        x.c.c.set_fault(Fault::None);
        let _g = x.h.enter();
        for i in 0..d.svcs.len() {
            use std::future::Future;
            use std::task::{Context, Poll};
            use tower::Service;
            let q = query(&x.c);
            let req = http::Request::builder().method("GET").uri("/knn?k=2").body(hyper::Body::from(rmp_serde::to_vec(&q).unwrap())).unwrap();
            let mut fut = Box::pin(d.svcs[i].as_mut().unwrap().call(req));
            d.out[i] += 1;
            let w = futures::task::noop_waker();
            let mut turns = 0;
            loop {
                load_is_right(d, "one more request");
                match fut.as_mut().poll(&mut Context::from_waker(&w)) {
                    Poll::Pending => simcore::yield_now("main"),
                    Poll::Ready(Ok(r)) if r.status() == 200 => break,
                    Poll::Ready(r) => fail("dead", &format!("after other requests failed, a good one gets {:?}", r.map(|r| r.status()).map_err(|e| e.to_string()))),
                }
                turns += 1;
                if turns > 20_000 {
                    fail("stuck", "a request after all others never completes");
                }
            }
            d.out[i] -= 1;
        }
        load_is_right(d, "the last request");
        count("services used to the end");
    }
    if d.out.iter().any(|o| *o != 0) {
        fail("harness", "outstanding requests miscounted");
    }
    observe_state(turns as u64);
}
