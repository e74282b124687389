//! What only the async interface has: suspended calls, dropped calls, calls in progress at the same time.
use crate::api::*;
use bip324::futures;
use bip324::io::Payload;
use common::net::{same, script, Wire};
use common::*;
use std::cell::RefCell;
use std::pin::pin;
use std::rc::Rc;
use std::task::Poll;
use tokio::io::AsyncReadExt;

nd::harnesses!(c13_cancel, c13_cancel_more, c13_flush, c13_duplex, c13_rest);

fn wire() -> Rc<RefCell<Wire>> {
    Rc::new(RefCell::new(Wire::default()))
}
/// Reads dropped wherever they are suspended.
fn cancel(cuts: usize, window: usize) {
    let r = role(nd::bool());
    let c = nd::vec(2);
    let s = script(r, &[], &[], &[(false, &c), (true, &[])]);
    let w = wire();
    let i = shared(src(s.data.clone(), &w));
    // nothing is read ahead: all that follows is read by the session
    i.0.borrow_mut().max = 16;
    let mut p = match block_on(futures::Protocol::new(MAGIC, r, None, None, i.clone(), dst(&w))) {
        Ok(p) => Protocol(p),
        Err(_) => return nd::check(false, "the handshake completes"),
    };
    {
        let mut i = i.0.borrow_mut();
        i.budget = cuts;
        i.window = window;
        i.interrupts = true;
        i.max = 1000;
    }
    for m in &s.sent {
        match p.read() {
            Ok(g) => nd::check(same(&g, m), "every packet arrives as it was sent, in order"),
            Err(_) => return nd::check(false, "every packet arrives"),
        }
    }
    nd::cover(i.0.borrow().budget == 0, "all cuts used");
}
pub fn c13_cancel() {
    cancel(2, usize::MAX)
}
pub fn c13_cancel_more() {
    cancel(3, 16)
}
// Writes and flushes suspended anywhere; nothing is reported done before it is flushed.
pub fn c13_flush() {
    let r = role(nd::bool());
    let g = nd::vec(3);
    let c = nd::vec(2);
    let mut s = script(r, &[], &[], &[]);
    let w = wire();
    let mut o = dst(&w);
    o.budget = nd::pick(0, 1);
    o.flushes = 2;
    let mut p = match Protocol::new(MAGIC, r, Some(g.clone()), None, src(s.data.clone(), &w), o) {
        Ok(p) => p,
        Err(_) => return nd::check(false, "the handshake completes however the bytes leave"),
    };
    nd::check(w.borrow().flushed == 64 + 3 + 36, "the handshake is on its way when the call returns");
    nd::check(p.write(&Payload::genuine(c.clone())).is_ok(), "a message is written");
    let out = w.borrow();
    nd::check(out.flushed == out.out.len(), "what was written is on its way when the call returns");
    let at = s.peer.read_hello(&out.out, &ALICE, &g, &[]);
    nd::check(nd::eq(&out.out[at..], &s.peer.recv.packet(0, &c, &[])), "the bytes that leave are the specified ones");
    nd::cover(true, "all written");
}
// A read and a write in progress at the same time, suspended and resumed in any order; the read may be dropped.
pub fn c13_duplex() {
    let r = role(nd::bool());
    let (a, b, c) = (nd::vec(2), nd::vec(1), nd::vec(2));
    let mut s = script(r, &[], &[], &[(false, &a), (true, &b)]);
    let w = wire();
    let i = shared(src(s.data.clone(), &w));
    let o = shared(dst(&w));
    i.0.borrow_mut().max = 16;
    let p = match block_on(futures::Protocol::new(MAGIC, r, None, None, i.clone(), o.clone())) {
        Ok(p) => p,
        Err(_) => return nd::check(false, "the handshake completes"),
    };
    {
        let mut i = i.0.borrow_mut();
        i.budget = 1;
        i.interrupts = true;
        i.max = 1000;
        o.0.borrow_mut().budget = 1;
        o.0.borrow_mut().flushes = 1;
    }
    let (mut rd, mut wr) = p.into_split();
    let m = Payload::genuine(c.clone());
    let mut got = vec![];
    {
        let mut f = pin!(wr.write(&m));
        let (tr, tw) = (Task::new(), Task::new());
        let mut written = false;
        while got.len() < 2 {
            let mut g = pin!(rd.read());
            loop {
                if !written && nd::bool() {
                    if let Poll::Ready(x) = tw.poll(f.as_mut()) {
                        nd::check(x.is_ok(), "a message is written");
                        written = true;
                    }
                }
                match tr.poll(g.as_mut()) {
                    Poll::Ready(Ok(x)) => {
                        got.push(x);
                        break;
                    }
                    Poll::Ready(Err(_)) => return nd::check(false, "every packet arrives"),
                    Poll::Pending => {
                        if nd::bool() {
                            break;
                        }
                    }
                }
            }
        }
        while !written {
            if let Poll::Ready(x) = tw.poll(f.as_mut()) {
                nd::check(x.is_ok(), "a message is written");
                written = true;
            }
        }
    }
    nd::check(same(&got[0], &s.sent[0]) & same(&got[1], &s.sent[1]), "every packet arrives as it was sent, in order");
    let out = w.borrow();
    nd::check(out.flushed == out.out.len(), "what was written is on its way when the call returns");
    let at = s.peer.read_hello(&out.out, &ALICE, &[], &[]);
    nd::check(nd::eq(&out.out[at..], &s.peer.recv.packet(0, &c, &[])), "the bytes that leave are the specified ones");
    nd::cover(true, "both done");
}
// The reader a finished handshake hands over, used directly: every byte after the version packet, once, in order.
pub fn c13_rest() {
    let r = role(nd::bool());
    let c = nd::vec(3);
    let s = script(r, &[9, 9], &[], &[(false, &c)]);
    let w = wire();
    let mut o = dst(&w);
    let mut i = src(s.data.clone(), &w);
    // how far ahead the handshake reads
    i.max = [1, 37, 40, 1000][nd::pick(0, 3)];
    let i = shared(i);
    let (_, _, mut rest) = match block_on(futures::handshake(MAGIC, r, None, None, i.clone(), &mut o)) {
        Ok(x) => x,
        Err(_) => return nd::check(false, "the handshake completes"),
    };
    i.0.borrow_mut().budget = 1;
    i.0.borrow_mut().interrupts = true;
    let mut got = vec![];
    let size = [1, 2, 5, 100][nd::pick(0, 3)];
    loop {
        let mut b = vec![0u8; size];
        let n = {
            let mut f = pin!(rest.read(&mut b));
            let t = Task::new();
            loop {
                if let Poll::Ready(x) = t.poll(f.as_mut()) {
                    break Some(x);
                }
                if nd::bool() {
                    break None;
                }
            }
        };
        match n {
            None => {}
            Some(Ok(0)) => break,
            Some(Ok(n)) => got.extend_from_slice(&b[..n]),
            Some(Err(_)) => return nd::check(false, "the rest can be read"),
        }
    }
    nd::check(nd::eq(&got, &s.data[s.ends[0]..]), "the rest of the stream is complete");
    nd::cover(true, "all read");
}
