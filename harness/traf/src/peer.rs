//! The transport between the shaper and the remote end.
use common::net::Wire;

use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

/// Only one thread runs at a time, in the executor and in the replay.
#[derive(Clone)]
pub struct Out {
    pub wire: Rc<RefCell<Wire>>,
    /// fails once so many bytes have left, `lasting` or once
    pub stop: usize,
    pub lasting: bool,
    pub kind: ErrorKind,
    /// flushing fails, not writing
    pub flush: bool,
    /// may be suspended in the middle of writing
    pub slow: bool,
}
unsafe impl Send for Out {}
pub fn out(wire: &Rc<RefCell<Wire>>) -> Out {
    Out { wire: wire.clone(), stop: usize::MAX, lasting: true, kind: ErrorKind::TimedOut, flush: false, slow: false }
}
impl Write for Out {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.slow {
            nd::yield_now();
        }
        let mut w = self.wire.borrow_mut();
        let n = if self.flush { b.len() } else { b.len().min(self.stop.saturating_sub(w.out.len())) };
        if n == 0 && !b.is_empty() {
            if !self.lasting {
                self.stop = usize::MAX;
            }
            return Err(self.kind.into());
        }
        w.out.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut w = self.wire.borrow_mut();
        if self.flush && w.out.len() > self.stop {
            self.flush = self.lasting;
            return Err(self.kind.into());
        }
        w.flushed = w.out.len();
        Ok(())
    }
}
pub struct In {
    pub data: Vec<u8>,
    pub pos: usize,
    pub slow: bool,
    /// fails at the end instead of closing
    pub fail: Option<ErrorKind>,
}
unsafe impl Send for In {}
impl Read for In {
    fn read(&mut self, b: &mut [u8]) -> io::Result<usize> {
        if self.slow {
            nd::yield_now();
        }
        let n = b.len().min(self.data.len() - self.pos);
        if let (0, Some(k)) = (n, self.fail) {
            return Err(k.into());
        }
        b[..n].copy_from_slice(&self.data[self.pos..self.pos + n]);
        self.pos += n;
        Ok(n)
    }
}
