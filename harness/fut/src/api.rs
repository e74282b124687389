//! The async interface under the same names as the blocking one, driven by an executor which drops and repeats
//! reads at will and insists on wake-ups.
use bip324::futures;
use bip324::io::{Payload, ProtocolError};
use bip324::{InboundCipher, Role};
use common::net::{self, Wire};
use std::cell::{Cell, RefCell};
use std::future::Future;
use std::io::{self, ErrorKind};
use std::ops::{Deref, DerefMut};
use std::pin::{pin, Pin};
use std::rc::Rc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
use tokio::io::{AsyncRead, AsyncReadExt, AsyncWrite, ReadBuf};

pub const ASYNC: bool = true;

// ---- a task that notices whether it was woken ------------------------------------------------------
pub struct Task(Cell<usize>);
fn raw(t: *const ()) -> RawWaker {
    fn wake(t: *const ()) {
        let t = unsafe { &*(t as *const Task) };
        t.0.set(t.0.get() + 1);
    }
    const V: RawWakerVTable = RawWakerVTable::new(raw, wake, wake, |_| ());
    RawWaker::new(t, &V)
}
impl Task {
    pub fn new() -> Task {
        Task(Cell::new(0))
    }
    /// One poll. A future that is pending must have arranged for this task to be woken.
    pub fn poll<F: Future>(&self, f: Pin<&mut F>) -> Poll<F::Output> {
        let w = unsafe { Waker::from_raw(raw(self as *const Task as *const ())) };
        let before = self.0.get();
        let r = f.poll(&mut Context::from_waker(&w));
        if r.is_pending() {
            nd::check(self.0.get() > before, "a suspended call has registered its task for wake-up");
        }
        r
    }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let t = Task::new();
    loop {
        if let Poll::Ready(r) = t.poll(f.as_mut()) {
            return r;
        }
    }
}

// ---- transports: what is an interruption for the blocking ones is a suspension here ----------------
pub struct Src(pub net::Src);
pub struct Dst {
    pub w: net::Dst,
    /// suspended flushes left
    pub flushes: usize,
}
unsafe impl Send for Src {}
unsafe impl Send for Dst {}
pub fn src(data: Vec<u8>, wire: &Rc<RefCell<Wire>>) -> Src {
    Src(net::src(data, wire))
}
pub fn dst(wire: &Rc<RefCell<Wire>>) -> Dst {
    Dst { w: net::dst(wire), flushes: 0 }
}
impl Deref for Src {
    type Target = net::Src;
    fn deref(&self) -> &net::Src {
        &self.0
    }
}
impl DerefMut for Src {
    fn deref_mut(&mut self) -> &mut net::Src {
        &mut self.0
    }
}
impl Deref for Dst {
    type Target = net::Dst;
    fn deref(&self) -> &net::Dst {
        &self.w
    }
}
impl DerefMut for Dst {
    fn deref_mut(&mut self) -> &mut net::Dst {
        &mut self.w
    }
}
impl AsyncRead for Src {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let s = self.get_mut();
        match s.0.turn(buf.remaining()) {
            Ok(n) => {
                buf.put_slice(&s.0.data[s.0.pos - n..s.0.pos]);
                Poll::Ready(Ok(()))
            }
            Err(ErrorKind::Interrupted) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Err(e) => Poll::Ready(Err(e.into())),
        }
    }
}
impl AsyncWrite for Dst {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        match self.get_mut().w.turn(buf) {
            Ok(n) => Poll::Ready(Ok(n)),
            Err(ErrorKind::Interrupted) => {
                cx.waker().wake_by_ref();
                Poll::Pending
            }
            Err(e) => Poll::Ready(Err(e.into())),
        }
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        let s = self.get_mut();
        let mut w = s.w.wire.borrow_mut();
        if w.flushed < w.out.len() && s.flushes > 0 && nd::bool() {
            s.flushes -= 1;
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if w.out.len() > s.w.stuck {
            return Poll::Ready(Err(s.w.fail.into()));
        }
        w.flushed = w.out.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
}

// ---- the interface ---------------------------------------------------------------------------------
pub struct Protocol<R, W>(pub futures::Protocol<R, W>);
pub struct Reader<R>(pub futures::ProtocolReader<R>);
/// Polls a call that says it may be dropped: `None` when it was.
fn cancelling<F: Future>(f: F) -> Option<F::Output> {
    let mut f = pin!(f);
    let t = Task::new();
    loop {
        if let Poll::Ready(r) = t.poll(f.as_mut()) {
            return Some(r);
        }
        if nd::bool() {
            return None;
        }
    }
}
impl<R: AsyncRead + Unpin + Send, W: AsyncWrite + Unpin + Send> Protocol<R, W> {
    pub fn new(magic: [u8; 4], role: Role, garbage: Option<Vec<u8>>, decoys: Option<Vec<Vec<u8>>>, r: R, w: W) -> Result<Self, ProtocolError> {
        block_on(futures::Protocol::new(magic, role, garbage, decoys, r, w)).map(Protocol)
    }
    pub fn read(&mut self) -> Result<Payload, ProtocolError> {
        loop {
            if let Some(r) = cancelling(self.0.read()) {
                return r;
            }
        }
    }
    pub fn write(&mut self, p: &Payload) -> Result<(), ProtocolError> {
        block_on(self.0.write(p))
    }
    pub fn into_split(self) -> (Reader<R>, futures::ProtocolWriter<W>) {
        let (r, w) = self.0.into_split();
        (Reader(r), w)
    }
}
impl<R: AsyncRead + Unpin + Send> Reader<R> {
    pub fn read(&mut self) -> Result<Payload, ProtocolError> {
        loop {
            if let Some(r) = cancelling(self.0.read()) {
                return r;
            }
        }
    }
    pub fn into_inner(self) -> (InboundCipher, futures::ProtocolSessionReader<R>) {
        self.0.into_inner()
    }
}
pub fn drain(mut r: impl AsyncRead + Unpin) -> io::Result<Vec<u8>> {
    let mut b = vec![];
    block_on(r.read_to_end(&mut b)).map(|_| b)
}

/// A transport the harness keeps a hand on.
pub struct Shared<T>(pub Rc<RefCell<T>>);
impl<T> Clone for Shared<T> {
    fn clone(&self) -> Self {
        Shared(self.0.clone())
    }
}
unsafe impl<T> Send for Shared<T> {}
pub fn shared<T>(t: T) -> Shared<T> {
    Shared(Rc::new(RefCell::new(t)))
}
impl<T: AsyncRead + Unpin> AsyncRead for Shared<T> {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut *self.0.borrow_mut()).poll_read(cx, buf)
    }
}
impl<T: AsyncWrite + Unpin> AsyncWrite for Shared<T> {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        Pin::new(&mut *self.0.borrow_mut()).poll_write(cx, buf)
    }
    fn poll_flush(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut *self.0.borrow_mut()).poll_flush(cx)
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        Pin::new(&mut *self.0.borrow_mut()).poll_shutdown(cx)
    }
}
