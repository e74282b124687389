//! The transport between the shaper and the remote end.
use common::net::Wire;
use std::cell::RefCell;
use std::io::{self, ErrorKind};
use std::pin::Pin;
use std::rc::Rc;
use std::task::{Context, Poll};
use std::future::Future;
use std::time::Duration;
use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
use tokio::time::{sleep, Sleep};

/// Only one thread runs at a time, in the executor and in the replay.
pub struct Out {
    pub wire: Rc<RefCell<Wire>>,
    /// fails once so many bytes have left, `lasting` or once
    pub stop: usize,
    pub lasting: bool,
    pub kind: ErrorKind,
    /// flushing fails, not writing
    pub flush: bool,
    /// may be suspended in the middle of writing, so many times
    pub slow: usize,
    /// writes at most so many bytes at once
    pub most: usize,
    /// takes nothing for a while once so many bytes were written
    pub stall: usize,
    pub pause: Option<Pin<Box<Sleep>>>,
}
unsafe impl Send for Out {}
pub fn out(wire: &Rc<RefCell<Wire>>) -> Out {
    Out { wire: wire.clone(), stop: usize::MAX, lasting: true, kind: ErrorKind::TimedOut, flush: false, slow: 0, most: usize::MAX, stall: usize::MAX, pause: None }
}
impl Out {
    fn suspend(&mut self, cx: &mut Context<'_>) -> bool {
        if self.slow > 0 && nd::choose(2) == 1 {
            self.slow -= 1;
            cx.waker().wake_by_ref();
            return true;
        }
        false
    }
}
impl AsyncWrite for Out {
    fn poll_write(mut self: Pin<&mut Self>, cx: &mut Context<'_>, b: &[u8]) -> Poll<io::Result<usize>> {
        if self.suspend(cx) {
            return Poll::Pending;
        }
        let wire = self.wire.clone();
        let at = wire.borrow().out.len();
        if at == self.stall {
            self.stall = usize::MAX;
            self.pause = Some(Box::pin(sleep(Duration::from_millis(250))));
        }
        if let Some(p) = &mut self.pause {
            if p.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            self.pause = None;
        }
        let mut w = wire.borrow_mut();
        let n = if self.flush { b.len() } else { b.len().min(self.stop.saturating_sub(w.out.len())) }.min(self.most);
        let n = if at < self.stall { n.min(self.stall - at) } else { n };
        if n == 0 && !b.is_empty() {
            if !self.lasting {
                self.stop = usize::MAX;
            }
            return Poll::Ready(Err(self.kind.into()));
        }
        w.out.extend_from_slice(&b[..n]);
        Poll::Ready(Ok(n))
    }
    fn poll_flush(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        if self.suspend(cx) {
            return Poll::Pending;
        }
        let wire = self.wire.clone();
        let mut w = wire.borrow_mut();
        if self.flush && w.out.len() > self.stop {
            self.flush = self.lasting;
            return Poll::Ready(Err(self.kind.into()));
        }
        w.flushed = w.out.len();
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.poll_flush(cx)
    }
}
pub struct In {
    pub data: Vec<u8>,
    pub pos: usize,
    /// fails at the end instead of closing
    pub fail: Option<ErrorKind>,
}
unsafe impl Send for In {}
impl AsyncRead for In {
    fn poll_read(mut self: Pin<&mut Self>, _: &mut Context<'_>, b: &mut ReadBuf<'_>) -> Poll<io::Result<()>> {
        let n = b.remaining().min(self.data.len() - self.pos);
        if let (0, Some(k)) = (n, self.fail) {
            return Poll::Ready(Err(k.into()));
        }
        let at = self.pos;
        b.put_slice(&self.data[at..at + n]);
        self.pos += n;
        Poll::Ready(Ok(()))
    }
}
