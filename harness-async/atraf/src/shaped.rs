//! `ShapedProtocol` over async I/O.
use crate::net::*;
use bip324::io::{Payload, ProtocolError};
use bip324::{Error, Role};
use bip324_traffic::futures::ShapedProtocol;
use bip324_traffic::{DecoyStrategy, PaddingStrategy, TrafficConfig};
use common::net::{same, script, suggestion, Script, Wire, KINDS};
use common::peer::*;
use common::*;
use std::cell::RefCell;
use std::io::ErrorKind;
use std::future::Future;
use std::rc::Rc;
use std::task::Poll;
use tokio::model::{block_on, settle};

nd::harnesses!(c19_write, c19_two_writes, c19_messages, c19_drop, c19_split, c19_read, c19_broken, c19_broken_kinds, c19_broken_padded, c19_broken_anywhere, c19_lost, c19_refused, c19_cancel, c19_alive, c19_stalled, c16_shaped, c19_too_long, c19_sizes, c21_garbage);

fn wire() -> Rc<RefCell<Wire>> {
    Rc::new(RefCell::new(Wire::default()))
}
fn config(padding: bool, decoys: bool) -> TrafficConfig {
    let c = TrafficConfig::new();
    let c = if padding { c.with_padding_strategy(PaddingStrategy::Random) } else { c };
    if decoys {
        c.with_decoy_strategy(DecoyStrategy::Random)
    } else {
        c
    }
}
fn small() {
    rand::model::least();
    rand::model::count(0);
}
async fn open(r: Role, padding: bool, decoys: bool, sent: &[(bool, &[u8])], o: Out) -> (ShapedProtocol<In>, Script) {
    let s = script(r, &[], &[], sent);
    let i = In { data: s.data.clone(), pos: 0, fail: None };
    match ShapedProtocol::new(MAGIC, r, config(padding, decoys), i, o).await {
        Ok(p) => (p, s),
        Err(_) => {
            nd::check(false, "the handshake completes");
            nd::end()
        }
    }
}
/// Polls once.
async fn once<F: Future>(f: F) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    std::future::poll_fn(|cx| match f.as_mut().poll(cx) {
        Poll::Ready(x) => Poll::Ready(Some(x)),
        Poll::Pending => Poll::Ready(None),
    })
    .await
}
/// Every task ends by itself once the session is gone.
fn ended(w: &Rc<RefCell<Wire>>) {
    settle();
    nd::check(w.borrow().flushed == w.borrow().out.len(), "what was written is on its way");
}
fn message(n: usize) -> Vec<u8> {
    let mut m = nd::vec(n);
    if n > 0 {
        m[0] |= 1;
    }
    m
}
// Messages while the writer task does what it wants.
fn writes(n: usize, slow: usize) {
    small();
    let (padding, decoys) = (nd::bool(), nd::bool());
    let r = role(padding == decoys);
    let w = wire();
    let mut o = out(&w);
    o.slow = slow;
    let (sent, marks) = block_on(async {
        let (mut p, _) = open(r, padding, decoys, &[], o).await;
        let (mut sent, mut marks) = (vec![], vec![]);
        for i in 0..n {
            let c = message(2);
            let (m, d) = if i == 1 { (Payload::decoy(c.clone()), true) } else { (Payload::genuine(c.clone()), false) };
            nd::check(p.write(&m).await.is_ok(), "a message is written");
            sent.push((d, c));
            marks.push(w.borrow().flushed);
        }
        (sent, marks)
    });
    ended(&w);
    let s = receive(r, &w.borrow().out);
    judge(&s, padding, decoys, &sent, &marks);
    nd::cover(decoys && s.packets.len() > 2 * n, "a decoy of its own");
    nd::cover(padding, "padding");
}
pub fn c19_write() {
    writes(1, 1)
}
pub fn c19_two_writes() {
    writes(2, 0)
}
// Messages of any type and many sizes, one after the other, in both directions.
pub fn c19_messages() {
    const SIZES: [usize; 7] = [0, 1, 300, 1023, 1024, 1025, 5000];
    small();
    ghost::set_sparse(1100);
    let (padding, decoys) = (nd::bool(), nd::bool());
    let r = role(padding == decoys);
    let (k, d) = (nd::pick(0, 6), nd::bool());
    let long = SIZES[k];
    let back = vec![7u8; long];
    let w = wire();
    let (sent, marks) = block_on(async {
        let (mut p, s) = open(r, padding, decoys, &[(d, &back), (!d, &[])], out(&w)).await;
        let (mut sent, mut marks) = (vec![], vec![]);
        for (i, n) in [long, 1].into_iter().enumerate() {
            let mut c = vec![0x21u8; n];
            let e = n.min(4);
            nd::fill(&mut c[n - e..]);
            if n > 0 {
                c[0] |= 1;
            }
            let d = d == (i == 0);
            let m = if d { Payload::decoy(c.clone()) } else { Payload::genuine(c.clone()) };
            nd::check(p.write(&m).await.is_ok(), "a message is written");
            sent.push((d, c));
            marks.push(w.borrow().flushed);
        }
        for m in &s.sent {
            match p.read().await {
                Ok(g) => nd::check(same(&g, m), "every packet arrives as it was sent, in order"),
                Err(_) => nd::check(false, "every packet arrives"),
            }
        }
        (sent, marks)
    });
    ended(&w);
    judge(&receive(r, &w.borrow().out), padding, decoys, &sent, &marks);
    nd::cover(k == 6, "longest message");
    nd::cover(k == 0, "empty message");
}
// Dropped at once, or in parts.
pub fn c19_drop() {
    writes(0, 1)
}
pub fn c19_split() {
    small();
    let r = role(nd::bool());
    let w = wire();
    let c = message(1);
    let last = nd::bool();
    block_on(async {
        let (p, _) = open(r, false, true, &[], out(&w)).await;
        let (rd, mut wr) = p.into_split();
        let mut keep = None;
        if last {
            keep = Some(rd);
        } else {
            drop(rd);
        }
        nd::check(wr.write(&Payload::genuine(c.clone())).await.is_ok(), "a message is written");
        drop(wr);
        ended(&w);
        drop(keep);
    });
    judge(&receive(r, &w.borrow().out), false, true, &[(false, c)], &[]);
    nd::cover(last, "writer dropped first");
    nd::cover(!last, "reader dropped first");
}
// What the peer sends is read as it was sent.
pub fn c19_read() {
    small();
    let r = role(nd::bool());
    let w = wire();
    let (a, b) = (nd::vec(2), nd::vec(1));
    block_on(async {
        let (mut p, s) = open(r, nd::bool(), true, &[(true, &b), (false, &a), (false, &[])], out(&w)).await;
        for m in &s.sent {
            match p.read().await {
                Ok(g) => nd::check(same(&g, m), "every packet arrives as it was sent, in order"),
                Err(_) => return nd::check(false, "every packet arrives"),
            }
        }
        nd::check(p.read().await.is_err(), "the end of the stream is reported");
    });
    ended(&w);
    nd::cover(true, "all read");
}
// A transport that fails for good, or once, after the handshake.
pub fn c19_broken() {
    // at the edges of the first packets
    broken([0, 1, 20, 21, 22, 23, 43, 60][nd::pick(0, 7)], false, false, ErrorKind::TimedOut, false)
}
pub fn c19_broken_anywhere() {
    broken(nd::pick(0, 90), false, nd::bool(), ErrorKind::TimedOut, false)
}
// The same when the first write is given up.
pub fn c19_lost() {
    broken([0, 1, 21, 22, 23, 50][nd::pick(0, 5)], true, false, ErrorKind::TimedOut, false)
}
pub fn c19_broken_padded() {
    broken([0, 1, 20, 21, 22, 23, 24, 43, 44, 45, 46, 65, 66, 67, 68, 88][nd::pick(0, 15)], false, true, ErrorKind::TimedOut, false)
}
pub fn c19_broken_kinds() {
    use ErrorKind::*;
    let k = [BrokenPipe, ConnectionReset, ConnectionAborted, NotConnected, UnexpectedEof, WouldBlock, WriteZero, InvalidInput, Other, TimedOut][nd::pick(0, 9)];
    let lost = nd::bool();
    broken([0, 22][nd::pick(0, 1)], lost, !lost, k, k == TimedOut)
}
fn broken(at: usize, lost: bool, padding: bool, kind: ErrorKind, flush: bool) {
    small();
    let r = role(nd::bool());
    let w = wire();
    let mut o = out(&w);
    o.stop = 64 + 16 + 20 + at;
    o.lasting = nd::bool();
    o.kind = kind;
    o.flush = flush;
    let mut tried = vec![];
    let done = block_on(async {
        let (mut p, _) = open(r, padding, !padding, &[], o).await;
        let mut done = vec![];
        for i in 0..2 {
            let c = vec![0x11 + i as u8, nd::u8()];
            let m = Payload::genuine(c.clone());
            tried.push(c);
            if lost && i == 0 {
                drop(once(p.write(&m)).await);
                continue;
            }
            if p.write(&m).await.is_err() {
                break;
            }
            done.push(i);
        }
        done
    });
    settle();
    let s = receive_valid(r, &w.borrow().out);
    let mut next = 0;
    for g in s.packets.iter().filter(|p| !p.0) {
        while next < tried.len() && !(g.1.len() == 2 && nd::eq(&g.1, &tried[next])) {
            nd::check(!done.contains(&next), "a message reported written is one the peer can read");
            next += 1;
        }
        nd::check(next < tried.len(), "the peer receives the application's messages, in order");
        next += 1;
    }
    nd::check(done.iter().all(|i| *i < next), "a message reported written is one the peer can read");
    nd::cover(done.len() == 1 || kind != ErrorKind::TimedOut, "one written");
    nd::cover(lost || done.len() == 2 || kind != ErrorKind::TimedOut, "two written");
}
// A handshake that fails leaves nothing behind.
pub fn c19_refused() {
    small();
    let r = role(nd::bool());
    let w = wire();
    let s = script(r, &[], &[], &[]);
    let mut i = In { data: s.data.clone(), pos: 0, fail: None };
    i.data.truncate(nd::pick(0, s.data.len() - 1));
    block_on(async {
        match ShapedProtocol::new(MAGIC, r, config(nd::bool(), nd::bool()), i, out(&w)).await {
            Ok(_) => nd::check(false, "the handshake fails"),
            Err(_) => {}
        }
    });
    ended(&w);
    nd::cover(true, "refused");
}
// A write dropped before it is done: the message is sent whole or not at all, and later ones are not harmed.
pub fn c19_cancel() {
    small();
    let padding = nd::bool();
    let r = role(padding);
    let w = wire();
    let mut o = out(&w);
    o.slow = 1;
    o.most = 21;
    let (a, b) = (message(2), message(1));
    let (first, done) = block_on(async {
        let (mut p, _) = open(r, padding, false, &[], o).await;
        let polls = nd::pick(0, 2);
        let first = {
            let m = Payload::genuine(a.clone());
            let mut f = Box::pin(p.write(&m));
            let mut n = 0;
            std::future::poll_fn(|cx| {
                if n == polls {
                    return Poll::Ready(None);
                }
                n += 1;
                match f.as_mut().poll(cx) {
                    Poll::Ready(x) => Poll::Ready(Some(x.is_ok())),
                    Poll::Pending if n == polls => Poll::Ready(None),
                    Poll::Pending => Poll::Pending,
                }
            })
            .await
        };
        nd::check(first != Some(false), "a message is written");
        let m = Payload::genuine(b.clone());
        let done = p.write(&m).await.is_ok();
        nd::check(done, "a message is written after another was given up");
        (first, done)
    });
    ended(&w);
    let s = receive(r, &w.borrow().out);
    let n = s.packets.iter().filter(|p| !p.0).count();
    nd::check(n == 1 || n == 2, "a message given up is sent once or never");
    nd::check(n == 2 || first.is_none(), "a message reported written is sent");
    let sent: Vec<_> = if n == 2 { vec![(false, a), (false, b)] } else { vec![(false, b)] };
    judge(&s, padding, false, &sent, &[]);
    nd::cover(done && first.is_none(), "given up");
    nd::cover(done && first.is_some(), "not given up");
}
// Decoys go on as long as the session lives, whatever the application did before.
pub fn c19_alive() {
    small();
    let padding = nd::bool();
    let r = role(padding);
    let n = nd::pick(0, 3);
    let mut decoys = [0; 2];
    for (i, d) in decoys.iter_mut().enumerate() {
        rand::model::always(i == 0);
        let w = wire();
        let a = message(1);
        block_on(async {
            let (mut p, s) = open(r, padding, true, &[(false, &[1]), (true, &[2])], out(&w)).await;
            let m = Payload::genuine(a.clone());
            if n == 3 {
                drop(once(p.write(&m)).await);
            } else if n > 0 {
                nd::check(p.write(&m).await.is_ok(), "a message is written");
            }
            if n == 3 {
                tokio::time::sleep(std::time::Duration::from_millis(50)).await;
            }
            if n == 2 {
                for m in &s.sent {
                    nd::check(matches!(p.read().await, Ok(g) if same(&g, m)), "every packet arrives as it was sent, in order");
                }
            }
            let before = w.borrow().out.len();
            tokio::time::sleep(std::time::Duration::from_millis(350)).await;
            *d = w.borrow().out.len() - before;
        });
        ended(&w);
        let s = receive(r, &w.borrow().out);
        let k = s.packets.iter().filter(|p| !p.0).count();
        nd::check(n == 3 || k == (n > 0) as usize, "a message is written");
        let sent = if k == 0 { vec![] } else { vec![(false, a)] };
        judge(&s, padding, true, &sent, &[]);
    }
    nd::check(decoys[0] > 0 || decoys[1] > 0, "decoys are sent as long as the session lives");
    nd::cover(n == 0, "idle");
    nd::cover(n == 1, "after a write");
    nd::cover(n == 2, "after a write and reads");
    nd::cover(n == 3, "after a write was given up");
}
// A transport that takes nothing for a while, in the middle of whatever is sent.
pub fn c19_stalled() {
    small();
    let padding = nd::bool();
    let r = role(padding);
    let at = [0, 1, 21, 500][nd::pick(0, 3)];
    let wait = [0, 50][nd::pick(0, 1)];
    rand::model::always(nd::bool());
    let w = wire();
    let mut o = out(&w);
    o.stall = 64 + 16 + 20 + at;
    let (a, b) = (message(2), message(1));
    block_on(async {
        let (mut p, _) = open(r, padding, true, &[], o).await;
        if wait > 0 {
            tokio::time::sleep(std::time::Duration::from_millis(wait)).await;
        }
        nd::check(p.write(&Payload::genuine(a.clone())).await.is_ok(), "a message is written");
        nd::check(p.write(&Payload::genuine(b.clone())).await.is_ok(), "a message is written");
    });
    ended(&w);
    let s = receive(r, &w.borrow().out);
    judge(&s, padding, true, &[(false, a), (false, b)], &[]);
    nd::cover(s.packets.len() > 4, "decoys");
}
// C16 through the shaper: failures of the transport and of the protocol are passed on as they are.
pub fn c16_shaped() {
    small();
    let r = role(nd::bool());
    let w = wire();
    let s = script(r, &[3; 3], &[], &[(false, &[1])]);
    let mut i = In { data: s.data.clone(), pos: 0, fail: None };
    let mut o = out(&w);
    let case = nd::pick(0, 6);
    let k = if matches!(case, 1 | 2 | 3) { 2 } else { nd::pick(0, 15) };
    let mut ours = Error::V1Protocol;
    match case {
        0 | 1 => {
            i.data.truncate([0, 10, 63, 64, 66, 80, 83, 90, s.ends[0] - 1][nd::pick(0, 8)]);
            i.fail = if case == 0 { Some(KINDS[k]) } else { None };
        }
        2 => {
            i.data[..4].copy_from_slice(&MAGIC);
        }
        3 => {
            i.data.truncate(64);
            i.data.resize(64 + 4111, 0);
            ours = Error::NoGarbageTerminator;
        }
        4 | 5 => {
            o.kind = KINDS[k];
            o.stop = [0, 10, 63, 64, 80, 99, 100, 101, 121, 122][nd::pick(0, 9)];
            o.flush = case == 5;
            if o.flush {
                o.stop = o.stop.saturating_sub(1);
            }
        }
        _ => {
            i.data.truncate([s.ends[0], s.ends[0] + 1, s.ends[0] + 3, s.ends[0] + 10][nd::pick(0, 3)]);
            i.fail = Some(KINDS[k]);
        }
    }
    let padding = nd::bool();
    block_on(async {
        let shaped = ShapedProtocol::new(MAGIC, r, config(padding, false), i, o).await;
        match shaped {
            Err(e) if matches!(case, 2 | 3) => nd::check(matches!(e, ProtocolError::Internal(x) if x == ours), "a refusal is passed on"),
            Err(e) => {
                nd::check(case != 6, "the handshake completes");
                suggestion(k, &e);
            }
            Ok(mut p) => {
                nd::check(case >= 4, "a failed handshake is reported");
                if case == 6 {
                    match p.read().await {
                        Err(e) => suggestion(k, &e),
                        Ok(_) => nd::check(false, "a failed read is reported"),
                    }
                } else {
                    let mut failed = false;
                    for _ in 0..8 {
                        if let Err(e) = p.write(&Payload::genuine(vec![1])).await {
                            suggestion(k, &e);
                            failed = true;
                            break;
                        }
                    }
                    nd::check(failed, "a failed write is reported");
                }
            }
        }
    });
    settle();
    nd::cover(case == 2, "old protocol");
    nd::cover(case == 6, "read error");
}
// Contents no packet can hold are refused, and the session goes on.
pub fn c19_too_long() {
    small();
    ghost::set_sparse(300);
    let (r, padding) = (role(nd::bool()), nd::bool());
    let w = wire();
    let c = message(2);
    let over = (1usize << 24) + nd::pick(0, 1);
    block_on(async {
        let (mut p, _) = open(r, padding, false, &[], out(&w)).await;
        match p.write(&Payload::genuine(vec![0; over])).await {
            Err(ProtocolError::Internal(Error::PacketTooBig)) => {}
            _ => nd::check(false, "contents no packet can hold are refused"),
        }
        nd::check(p.write(&Payload::genuine(c.clone())).await.is_ok(), "a message is written after another was refused");
    });
    ended(&w);
    judge(&receive(r, &w.borrow().out), padding, false, &[(false, c)], &[]);
    nd::cover(padding, "padding");
}
// C20 over async I/O: the sizes the shaper may choose.
pub fn c19_sizes() {
    rand::model::edges();
    rand::model::count(0);
    let (padding, decoys) = (nd::bool(), nd::bool());
    let r = role(padding == decoys);
    let w = wire();
    let c = message(1);
    block_on(async {
        let (mut p, _) = open(r, padding, decoys, &[], out(&w)).await;
        nd::check(p.write(&Payload::genuine(c.clone())).await.is_ok(), "a message is written whatever is chosen");
    });
    ended(&w);
    let s = receive(r, &w.borrow().out);
    judge(&s, padding, decoys, &[(false, c)], &[]);
    for d in &s.early {
        nd::check(*d <= 1024 && *d > 0, "decoys are within the documented limit");
    }
    nd::cover(s.garbage == 4095, "longest garbage");
    nd::cover(s.packets.iter().any(|p| p.1.len() == 1024), "longest decoy");
}

// C21: garbage which an observer could tell from noise would give the protocol away.
pub fn c21_garbage() {
    let (x, y) = (nd::u8(), nd::u8());
    nd::assume(x != y);
    let r = role(nd::bool());
    let mut g = vec![];
    for b in [x, y] {
        rand::model::most(b);
        let w = wire();
        nd::check(block_on(async { open(r, true, false, &[], out(&w)).await; true }), "the handshake completes");
        nd::check(w.borrow().out.len() >= 64 + 4095, "garbage is sent");
        g.push(w.borrow().out[64..64 + 4095].to_vec());
    }
    let mut differ = true;
    for (a, b) in g[0].iter().zip(&g[1]) {
        differ &= a != b;
    }
    nd::check(differ, "all garbage comes from the random source");
    nd::cover(true, "garbage");
}
