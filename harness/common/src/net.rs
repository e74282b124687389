//! Byte streams with every behaviour the `Read` and `Write` contracts allow, within a budget.
use crate::*;
use bip324::io::{Payload, ProtocolError, ProtocolFailureSuggestion};
use std::cell::RefCell;
use std::io::{self, ErrorKind, Read, Write};
use std::rc::Rc;

/// What a conforming peer sends: hello and then packets.
pub struct Script {
    pub data: Vec<u8>,
    /// end of the hello and of each packet
    pub ends: Vec<usize>,
    pub sent: Vec<(bool, Vec<u8>)>,
    pub peer: RefPeer,
}
pub fn script(r: Role, garbage: &[u8], decoys: &[&[u8]], packets: &[(bool, &[u8])]) -> Script {
    let mut peer = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    let mut data = peer.hello(garbage, decoys);
    let mut ends = vec![data.len()];
    let mut sent = vec![];
    for (decoy, c) in packets {
        let p = peer.send.packet(if *decoy { 0x80 } else { 0 }, c, &[]);
        data.extend_from_slice(&p);
        ends.push(data.len());
        sent.push((*decoy, c.to_vec()));
    }
    Script { data, ends, sent, peer }
}
pub fn same(p: &Payload, s: &(bool, Vec<u8>)) -> bool {
    (p.packet_type() == PacketType::Decoy) == s.0 && nd::eq(p.contents(), &s.1)
}

#[derive(Default)]
pub struct Wire {
    /// bytes the node wrote, and how many of them it flushed
    pub out: Vec<u8>,
    pub flushed: usize,
    pub read: usize,
}
pub struct Src {
    pub data: Rc<Vec<u8>>,
    pub pos: usize,
    /// stop of the stream (end of file, or `fail`)
    pub stop: usize,
    pub fail: Option<ErrorKind>,
    /// go on after the failure was reported once
    pub once: bool,
    /// short reads (and interruptions) left
    pub budget: usize,
    pub window: usize,
    pub interrupts: bool,
    pub max: usize,
    /// what the peer waits for: it sends bytes from .0 on only after the node's first .1 bytes arrived
    pub gates: Vec<(usize, usize)>,
    pub wire: Rc<RefCell<Wire>>,
}
pub fn src(data: Vec<u8>, wire: &Rc<RefCell<Wire>>) -> Src {
    let stop = data.len();
    Src {
        data: Rc::new(data),
        pos: 0,
        stop,
        fail: None,
        once: false,
        budget: 0,
        window: usize::MAX,
        interrupts: false,
        max: usize::MAX,
        gates: vec![],
        wire: wire.clone(),
    }
}
impl Src {
    /// How the next read of up to `want` bytes goes: bytes handed over, or a reason not to.
    pub fn turn(&mut self, want: usize) -> Result<usize, ErrorKind> {
        if want == 0 {
            return Ok(0);
        }
        if self.pos == self.stop {
            let f = match self.fail {
                Some(f) => f,
                None => return Ok(0),
            };
            if self.once {
                self.fail = None;
                self.stop = self.data.len();
            }
            return Err(f);
        }
        let mut n = want.min(self.stop - self.pos).min(self.max);
        for g in &self.gates {
            if self.pos < g.0 {
                n = n.min(g.0 - self.pos);
            } else if self.pos == g.0 {
                nd::check(self.wire.borrow().flushed >= g.1, "the node does not wait for a peer that waits for it");
            }
        }
        if self.budget > 0 && self.window > 0 {
            let lo = if self.interrupts { 0 } else { 1 };
            let k = nd::pick(lo, n);
            if k == 0 {
                self.budget -= 1;
                return Err(ErrorKind::Interrupted);
            }
            if k < n {
                self.budget -= 1;
                // the next cut is near this one
                self.window = self.window.min(24);
            }
            n = k;
            self.window = self.window.saturating_sub(if self.window <= 24 { 1 } else { 0 });
        }
        self.pos += n;
        self.wire.borrow_mut().read += n;
        Ok(n)
    }
}
impl Read for Src {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = self.turn(buf.len()).map_err(io::Error::from)?;
        buf[..n].copy_from_slice(&self.data[self.pos - n..self.pos]);
        Ok(n)
    }
}
/// Writer whose bytes reach the peer when flushed.
pub struct Dst {
    pub wire: Rc<RefCell<Wire>>,
    pub budget: usize,
    /// fails after so many bytes
    pub stop: usize,
    pub fail: ErrorKind,
    /// then takes nothing instead of failing
    pub zero: bool,
    /// flushing fails once more than so many bytes were written
    pub stuck: usize,
}
pub fn dst(wire: &Rc<RefCell<Wire>>) -> Dst {
    Dst { wire: wire.clone(), budget: 0, stop: usize::MAX, fail: ErrorKind::BrokenPipe, zero: false, stuck: usize::MAX }
}
impl Dst {
    pub fn turn(&mut self, buf: &[u8]) -> Result<usize, ErrorKind> {
        let mut w = self.wire.borrow_mut();
        let mut n = buf.len();
        if n == 0 {
            return Ok(0);
        }
        if w.out.len() + n > self.stop {
            n = self.stop - w.out.len();
            if n == 0 {
                return if self.zero { Ok(0) } else { Err(self.fail) };
            }
        } else if self.budget > 0 {
            let k = nd::pick(0, n);
            if k == 0 {
                self.budget -= 1;
                return Err(ErrorKind::Interrupted);
            }
            if k < n {
                self.budget -= 1;
            }
            n = k;
        }
        w.out.extend_from_slice(&buf[..n]);
        Ok(n)
    }
}
impl Write for Dst {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.turn(buf).map_err(io::Error::from)
    }
    fn flush(&mut self) -> io::Result<()> {
        let mut w = self.wire.borrow_mut();
        if w.out.len() > self.stuck {
            return Err(self.fail.into());
        }
        w.flushed = w.out.len();
        Ok(())
    }
}

/// Kinds of I/O errors: the first three mean that the peer may have hung up.
pub const KINDS: [ErrorKind; 16] = [
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::UnexpectedEof,
    ErrorKind::NotFound,
    ErrorKind::PermissionDenied,
    ErrorKind::ConnectionRefused,
    ErrorKind::NotConnected,
    ErrorKind::AddrInUse,
    ErrorKind::BrokenPipe,
    ErrorKind::AlreadyExists,
    ErrorKind::WouldBlock,
    ErrorKind::InvalidInput,
    ErrorKind::InvalidData,
    ErrorKind::TimedOut,
    ErrorKind::WriteZero,
    ErrorKind::Other,
];
pub fn suggestion(k: usize, e: &ProtocolError) {
    match e {
        ProtocolError::Io(e, s) => {
            nd::check(e.kind() == KINDS[k], "the error is passed on");
            nd::check(matches!(s, ProtocolFailureSuggestion::RetryV1) == (k < 3), "retrying is suggested exactly if the peer seems to have hung up");
        }
        _ => nd::check(false, "an I/O error is reported as one"),
    }
}
