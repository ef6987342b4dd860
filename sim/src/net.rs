//! Simulated connections, listener and task workers for the server.
use simcore::{chance, count, decide};
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::io;
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};

/// Shared between simulated threads, only one of which runs at a time.
pub struct Shared<T>(UnsafeCell<T>);
unsafe impl<T> Sync for Shared<T> {}
unsafe impl<T> Send for Shared<T> {}
impl<T> Shared<T> {
    pub fn new(t: T) -> Self {
        Shared(UnsafeCell::new(t))
    }
    #[allow(clippy::mut_from_ref)]
    pub fn get(&self) -> &mut T {
        unsafe { &mut *self.0.get() }
    }
}

#[derive(Default)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    cap: usize,
    pub eof: bool,
    waker: Option<Waker>,
}

pub struct State {
    pub up: Pipe,
    pub down: Pipe,
    pub reset: bool,
    /// The server has let go of the connection.
    pub gone: bool,
    rough: bool,
}

pub struct Conn {
    key: usize,
    s: Shared<State>,
}

fn kick(w: &mut Option<Waker>) {
    if let Some(w) = w.take() {
        w.wake();
    }
}

/// The smallest socket buffer, so that large bodies do not take forever.
pub static LEAST: std::sync::atomic::AtomicUsize = std::sync::atomic::AtomicUsize::new(0);

impl Conn {
    pub fn new(id: usize) -> Arc<Conn> {
        let cap = [4, 64, 1 << 16, 1 << 16][decide("socket buffer", 4)].max(LEAST.load(std::sync::atomic::Ordering::Relaxed));
        let pipe = || Pipe { cap, ..Default::default() };
        Arc::new(Conn { key: 7_000_000 + id, s: Shared::new(State { up: pipe(), down: pipe(), reset: false, gone: false, rough: decide("rough socket", 2) == 1 }) })
    }
    pub fn s(&self) -> &mut State {
        self.s.get()
    }
    /// Client side: sends as much as fits; None if the connection is no more.
    pub fn send(&self, b: &[u8]) -> Option<usize> {
        let s = self.s();
        if s.gone || s.reset {
            return None;
        }
        let n = s.up.cap.saturating_sub(s.up.buf.len()).min(b.len());
        s.up.buf.extend(&b[..n]);
        kick(&mut s.up.waker);
        Some(n)
    }
    pub fn can_send(&self) -> bool {
        let s = self.s();
        s.gone || s.reset || s.up.buf.len() < s.up.cap
    }
    pub fn can_recv(&self) -> bool {
        let s = self.s();
        !s.down.buf.is_empty() || s.down.eof || s.gone || s.reset
    }
    /// Client side: what has arrived; None at the end.
    pub fn recv(&self, most: usize) -> Option<Vec<u8>> {
        let s = self.s();
        if s.down.buf.is_empty() || s.reset {
            return None;
        }
        let n = s.down.buf.len().min(most);
        let v = s.down.buf.drain(..n).collect();
        kick(&mut s.down.waker);
        Some(v)
    }
    pub fn half_close(&self) {
        let s = self.s();
        s.up.eof = true;
        kick(&mut s.up.waker);
    }
    pub fn reset(&self) {
        let s = self.s();
        s.reset = true;
        kick(&mut s.up.waker);
        kick(&mut s.down.waker);
    }
    pub fn wait(&self) {
        simcore::block(self.key, "client waits", None);
    }
    pub fn poke(&self) {
        simcore::wake(self.key, usize::MAX);
    }
}

/// The server's end of a connection.
pub struct ServerIo(Arc<Conn>);
impl Drop for ServerIo {
    fn drop(&mut self) {
        let s = self.0.s();
        s.gone = true;
        s.down.eof = true;
        self.0.poke();
    }
}
impl AsyncRead for ServerIo {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        simcore::step("socket read");
        let s = self.0.s();
        if s.reset {
            return Poll::Ready(Err(io::ErrorKind::ConnectionReset.into()));
        }
        if s.up.buf.is_empty() {
            if s.up.eof {
                return Poll::Ready(Ok(()));
            }
            s.up.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if s.rough && chance("late delivery", 150) {
            count("fault late delivery");
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        let mut n = s.up.buf.len().min(buf.remaining());
        if s.rough && n > 1 && chance("short socket read", 500) {
            count("fault short socket read");
            n = 1 + decide("read size", n.min(64));
            n = n.min(s.up.buf.len()).min(buf.remaining());
        }
        let v: Vec<u8> = s.up.buf.drain(..n).collect();
        buf.put_slice(&v);
        self.0.poke();
        Poll::Ready(Ok(()))
    }
}
impl AsyncWrite for ServerIo {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        simcore::step("socket write");
        let s = self.0.s();
        if s.reset {
            return Poll::Ready(Err(io::ErrorKind::BrokenPipe.into()));
        }
        let mut n = s.down.cap.saturating_sub(s.down.buf.len()).min(b.len());
        if n == 0 && !b.is_empty() {
            s.down.waker = Some(cx.waker().clone());
            return Poll::Pending;
        }
        if s.rough && n > 1 && chance("short socket write", 400) {
            count("fault short socket write");
            n = 1 + decide("write size", n.min(64));
            n = n.min(b.len());
        }
        s.down.buf.extend(&b[..n]);
        self.0.poke();
        Poll::Ready(Ok(n))
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        simcore::step("socket shutdown");
        self.0.s().down.eof = true;
        self.0.poke();
        Poll::Ready(Ok(()))
    }
}

#[derive(Default)]
struct Door {
    waiting: VecDeque<Arc<Conn>>,
    closed: bool,
    waker: Option<Waker>,
}
/// The listening socket.
#[derive(Clone)]
pub struct Listener(Arc<Shared<Door>>);
impl Listener {
    pub fn new() -> Listener {
        Listener(Arc::new(Shared::new(Door::default())))
    }
    pub fn connect(&self, c: &Arc<Conn>) {
        let d = self.0.get();
        d.waiting.push_back(Arc::clone(c));
        kick(&mut d.waker);
    }
    pub fn close(&self) {
        let d = self.0.get();
        d.closed = true;
        kick(&mut d.waker);
    }
}
impl hyper::server::accept::Accept for Listener {
    type Conn = ServerIo;
    type Error = io::Error;
    fn poll_accept(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<io::Result<ServerIo>>> {
        simcore::step("accept");
        let d = self.0.get();
        if let Some(c) = d.waiting.pop_front() {
            return Poll::Ready(Some(Ok(ServerIo(c))));
        }
        if d.closed {
            return Poll::Ready(None);
        }
        d.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}

/// A runtime whose tasks are polled by simulated threads.
pub fn runtime(workers: usize) -> (tokio::runtime::Runtime, tokio::runtime::Handle) {
    let rt = tokio::runtime::Builder::new_current_thread().build().unwrap();
    let h = rt.handle().clone();
    for i in 0..workers {
        let h = h.clone();
        simcore::spawn(&format!("server{}", i), true, move || {
            let _g = h.enter();
            simcore::tasks::worker();
        });
    }
    (rt, h)
}

/// From now on a panic anywhere is a violation, also where the runtime would catch it.
pub fn no_panics() {
    std::panic::set_hook(Box::new(|info| {
        let t: String = format!("{}", info).chars().take(300).collect();
        simcore::fail("panic", &format!("the server panicked: {}", t));
    }));
}

/// Where stalled clients wait.
pub struct Gate(Shared<bool>);
const GATE: usize = 6_999_999;
impl Gate {
    pub fn new() -> Arc<Gate> {
        Arc::new(Gate(Shared::new(false)))
    }
    pub fn open(&self) -> bool {
        *self.0.get()
    }
    pub fn wait(&self) {
        while !self.open() {
            simcore::block(GATE, "client stalls", None);
        }
    }
    pub fn release(&self) {
        *self.0.get() = true;
        simcore::wake(GATE, usize::MAX);
    }
}
