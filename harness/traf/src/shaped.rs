//! `ShapedProtocol` over blocking I/O.
use crate::peer::*;
use bip324::io::{Payload, ProtocolError};
use bip324::{Error, Role};
use bip324_traffic::io::ShapedProtocol;
use bip324_traffic::{DecoyStrategy, PaddingStrategy, TrafficConfig};
use common::net::{same, script, suggestion, Wire, KINDS};
use common::peer::*;
use common::*;
use std::cell::RefCell;
use std::io::ErrorKind;
use std::rc::Rc;

nd::harnesses!(c18_write, c18_two_writes, c18_sizes, c18_drop, c18_split, c18_read, c18_broken, c18_broken_kinds, c18_broken_padded, c18_broken_anywhere, c18_refused, c18_alive, c16_shaped, c18_too_long, c20_sizes, c20_thread, c20_garbage, c20_early_decoys, c20_padding, c20_decoys, c21_garbage);

fn wire() -> Rc<RefCell<Wire>> {
    Rc::new(RefCell::new(Wire::default()))
}
fn config(padding: bool, decoys: bool) -> TrafficConfig {
    let c = TrafficConfig::new();
    let c = if padding { c.with_padding_strategy(PaddingStrategy::Random) } else { c };
    if decoys {
        c.with_decoy_strategy(DecoyStrategy::Random)
    } else {
        c
    }
}
fn open(r: Role, padding: bool, decoys: bool, sent: &[(bool, &[u8])], o: Out) -> (Option<ShapedProtocol<In, Out>>, common::net::Script) {
    let s = script(r, &[], &[], sent);
    let i = In { data: s.data.clone(), pos: 0, slow: false, fail: None };
    (ShapedProtocol::new(MAGIC, r, config(padding, decoys), i, o).ok(), s)
}
fn settle(w: &Rc<RefCell<Wire>>) {
    let n = w.borrow().out.len();
    for _ in 0..3 {
        std::thread::sleep(std::time::Duration::from_secs(1));
    }
    nd::check(w.borrow().out.len() == n, "nothing is sent after the session is dropped");
    nd::check(w.borrow().flushed == n, "what was written is on its way");
}
fn message(n: usize) -> Vec<u8> {
    let mut m = nd::vec(n);
    if n > 0 {
        m[0] |= 1;
    }
    m
}
// C18: messages while the background thread does what it wants.
fn writes(n: usize, slow: bool) {
    rand::model::small();
    rand::model::count(1);
    let r = role(nd::bool());
    let (padding, decoys) = (nd::bool(), nd::bool());
    let w = wire();
    let mut o = out(&w);
    o.slow = slow;
    let (p, _) = open(r, padding, decoys, &[], o);
    let mut p = match p {
        Some(p) => p,
        None => return nd::check(false, "the handshake completes"),
    };
    let (mut sent, mut marks) = (vec![], vec![]);
    for i in 0..n {
        let c = message(2);
        let (m, d) = if i == 1 { (Payload::decoy(c.clone()), true) } else { (Payload::genuine(c.clone()), false) };
        nd::check(p.write(&m).is_ok(), "a message is written");
        sent.push((d, c));
        marks.push(w.borrow().flushed);
    }
    drop(p);
    settle(&w);
    let s = receive(r, &w.borrow().out);
    judge(&s, padding, decoys, &sent, &marks);
    nd::cover(decoys && s.packets.len() > 2 * n, "a decoy of its own");
    nd::cover(padding, "padding");
}
pub fn c18_write() {
    writes(1, true)
}
pub fn c18_two_writes() {
    writes(2, false)
}
// C18: messages of any type and many sizes, one after the other, in both directions.
pub fn c18_sizes() {
    const SIZES: [usize; 10] = [0, 1, 300, 1023, 1024, 1025, 5000, 65_536, 4_000_013, 0xff_ffff];
    rand::model::least();
    rand::model::count(0);
    ghost::set_sparse(1100);
    let (padding, decoys) = (nd::bool(), nd::bool());
    let r = role(padding == decoys);
    let (k, d) = (nd::pick(0, 9), nd::bool());
    let long = SIZES[k];
    let back = vec![7u8; long.min(4_000_013)];
    let w = wire();
    let (p, s) = open(r, padding, decoys, &[(d, &back), (!d, &[])], out(&w));
    let mut p = match p {
        Some(p) => p,
        None => return nd::check(false, "the handshake completes"),
    };
    let (mut sent, mut marks) = (vec![], vec![]);
    for (i, n) in [long, 1].into_iter().enumerate() {
        let mut c = vec![0x21u8; n];
        let e = n.min(4);
        nd::fill(&mut c[n - e..]);
        if n > 0 {
            c[0] |= 1;
        }
        let d = d == (i == 0);
        let m = if d { Payload::decoy(c.clone()) } else { Payload::genuine(c.clone()) };
        nd::check(p.write(&m).is_ok(), "a message is written");
        sent.push((d, c));
        marks.push(w.borrow().flushed);
    }
    for m in &s.sent {
        match p.read() {
            Ok(g) => nd::check(same(&g, m), "every packet arrives as it was sent, in order"),
            Err(_) => return nd::check(false, "every packet arrives"),
        }
    }
    drop(p);
    settle(&w);
    judge(&receive(r, &w.borrow().out), padding, decoys, &sent, &marks);
    nd::cover(k == 9, "largest message");
    nd::cover(k == 0, "empty message");
}
// C18: dropped at once, or in parts.
pub fn c18_drop() {
    writes(0, true)
}
pub fn c18_split() {
    rand::model::small();
    rand::model::count(1);
    let r = role(nd::bool());
    let w = wire();
    let (p, _) = open(r, false, true, &[], out(&w));
    let (rd, mut wr) = match p {
        Some(p) => p.into_split(),
        None => return nd::check(false, "the handshake completes"),
    };
    let c = message(1);
    let last = nd::bool();
    let mut keep = None;
    if last {
        keep = Some(rd);
    } else {
        drop(rd);
    }
    nd::check(wr.write(&Payload::genuine(c.clone())).is_ok(), "a message is written");
    drop(wr);
    settle(&w);
    drop(keep);
    judge(&receive(r, &w.borrow().out), false, true, &[(false, c)], &[]);
    nd::cover(last, "writer dropped first");
    nd::cover(!last, "reader dropped first");
}
// C18: what the peer sends is read as it was sent.
pub fn c18_read() {
    rand::model::small();
    rand::model::count(1);
    let r = role(nd::bool());
    let w = wire();
    let (a, b) = (nd::vec(2), nd::vec(1));
    let (p, s) = open(r, nd::bool(), true, &[(true, &b), (false, &a), (false, &[])], out(&w));
    let mut p = match p {
        Some(p) => p,
        None => return nd::check(false, "the handshake completes"),
    };
    for m in &s.sent {
        match p.read() {
            Ok(g) => nd::check(same(&g, m), "every packet arrives as it was sent, in order"),
            Err(_) => return nd::check(false, "every packet arrives"),
        }
    }
    nd::check(p.read().is_err(), "the end of the stream is reported");
    drop(p);
    settle(&w);
    nd::cover(true, "all read");
}
// C18: a transport that fails for good, or once, at any point after the handshake.
pub fn c18_broken() {
    // at the edges of the first packets
    broken([0, 1, 3, 20, 21, 22, 23, 25, 43, 44, 45][nd::pick(0, 10)], false, ErrorKind::TimedOut, false)
}
pub fn c18_broken_anywhere() {
    broken(nd::pick(0, 90), nd::bool(), ErrorKind::TimedOut, false)
}
pub fn c18_broken_padded() {
    broken([0, 1, 20, 21, 22, 23, 24, 43, 44, 45, 46, 65, 66, 67, 68, 88][nd::pick(0, 15)], true, ErrorKind::TimedOut, false)
}
pub fn c18_broken_kinds() {
    use ErrorKind::*;
    let k = [BrokenPipe, ConnectionReset, ConnectionAborted, NotConnected, UnexpectedEof, WouldBlock, WriteZero, InvalidInput, Other, TimedOut][nd::pick(0, 9)];
    broken([0, 22][nd::pick(0, 1)], nd::bool(), k, k == TimedOut)
}
fn broken(at: usize, padding: bool, kind: ErrorKind, flush: bool) {
    rand::model::small();
    rand::model::count(1);
    let r = role(nd::bool());
    let w = wire();
    let mut o = out(&w);
    let hello = 64 + 16 + 20;
    o.stop = hello + at;
    o.lasting = nd::bool();
    o.kind = kind;
    o.flush = flush;
    let s = script(r, &[], &[], &[]);
    let i = In { data: s.data.clone(), pos: 0, slow: false, fail: None };
    let mut p = match ShapedProtocol::new(MAGIC, r, config(padding, !padding), i, o) {
        Ok(p) => p,
        Err(_) => return,
    };
    let mut done = vec![];
    for _ in 0..2 {
        let c = message(2);
        if p.write(&Payload::genuine(c.clone())).is_err() {
            break;
        }
        done.push((false, c));
    }
    drop(p);
    let n = w.borrow().out.len();
    for _ in 0..3 {
        std::thread::sleep(std::time::Duration::from_secs(1));
    }
    nd::check(w.borrow().out.len() == n, "nothing is sent after the session is dropped");
    let s = receive_valid(r, &w.borrow().out);
    let got: Vec<_> = s.packets.iter().filter(|p| !p.0).collect();
    nd::check(got.len() >= done.len(), "a message reported written is one the peer can read");
    for (g, d) in got.iter().zip(&done) {
        nd::check(nd::eq(&g.1, &d.1), "the peer receives the application's messages, in order");
    }
    nd::cover(done.len() == 1 || kind != ErrorKind::TimedOut, "one written");
    nd::cover(done.len() == 2 || kind != ErrorKind::TimedOut, "two written");
}
// C18: a handshake that fails leaves nothing behind.
pub fn c18_refused() {
    rand::model::small();
    rand::model::count(1);
    let r = role(nd::bool());
    let w = wire();
    let s = script(r, &[], &[], &[]);
    let mut i = In { data: s.data.clone(), pos: 0, slow: false, fail: None };
    i.data.truncate(nd::pick(0, s.data.len() - 1));
    match ShapedProtocol::new(MAGIC, r, config(nd::bool(), nd::bool()), i, out(&w)) {
        Ok(_) => return nd::check(false, "the handshake fails"),
        Err(_) => {}
    }
    settle(&w);
    nd::cover(true, "refused");
}

// C18: decoys go on as long as the session lives, whatever the application did before.
pub fn c18_alive() {
    rand::model::least();
    rand::model::count(0);
    let (padding, r) = (nd::bool(), role(nd::bool()));
    let n = nd::pick(0, 2);
    let mut decoys = [0; 2];
    for (i, d) in decoys.iter_mut().enumerate() {
        rand::model::always(i == 0);
        let w = wire();
        let mut o = out(&w);
        o.slow = true;
        let (p, s) = open(r, padding, true, &[(false, &[1]), (true, &[2])], o);
        let mut p = match p {
            Some(p) => p,
            None => return nd::check(false, "the handshake completes"),
        };
        let mut sent = vec![];
        if n > 0 {
            let c = message(1);
            nd::check(p.write(&Payload::genuine(c.clone())).is_ok(), "a message is written");
            sent.push((false, c));
        }
        if n > 1 {
            for m in &s.sent {
                nd::check(matches!(p.read(), Ok(g) if same(&g, m)), "every packet arrives as it was sent, in order");
            }
        }
        let before = w.borrow().out.len();
        for _ in 0..3 {
            std::thread::sleep(std::time::Duration::from_millis(250));
        }
        *d = w.borrow().out.len() - before;
        drop(p);
        settle(&w);
        judge(&receive(r, &w.borrow().out), padding, true, &sent, &[]);
    }
    nd::check(decoys[0] > 0 || decoys[1] > 0, "decoys are sent as long as the session lives");
    nd::cover(n == 0, "idle");
    nd::cover(n == 1, "after a write");
    nd::cover(n == 2, "after a write and reads");
}

// C16 through the shaper: failures of the transport and of the protocol are passed on as they are.
pub fn c16_shaped() {
    rand::model::small();
    rand::model::count(0);
    let r = role(nd::bool());
    let w = wire();
    let s = script(r, &[3; 3], &[], &[(false, &[1])]);
    let mut i = In { data: s.data.clone(), pos: 0, slow: false, fail: None };
    let mut o = out(&w);
    let case = nd::pick(0, 6);
    let k = if matches!(case, 1 | 2 | 3) { 2 } else { nd::pick(0, 15) };
    let mut ours = Error::V1Protocol;
    match case {
        0 | 1 => {
            i.data.truncate([0, 10, 63, 64, 66, 80, 83, 90, s.ends[0] - 1][nd::pick(0, 8)]);
            i.fail = if case == 0 { Some(KINDS[k]) } else { None };
        }
        2 => {
            i.data[..4].copy_from_slice(&MAGIC);
        }
        3 => {
            i.data.truncate(64);
            i.data.resize(64 + 4111, 0);
            ours = Error::NoGarbageTerminator;
        }
        4 | 5 => {
            o.kind = KINDS[k];
            o.stop = [0, 10, 63, 64, 80, 99, 100, 101, 121, 122][nd::pick(0, 9)];
            o.flush = case == 5;
            if o.flush {
                o.stop = o.stop.saturating_sub(1);
            }
        }
        _ => {
            i.data.truncate([s.ends[0], s.ends[0] + 1, s.ends[0] + 3, s.ends[0] + 10][nd::pick(0, 3)]);
            i.fail = Some(KINDS[k]);
        }
    }
    let padding = nd::bool();
    let shaped = ShapedProtocol::new(MAGIC, r, config(padding, false), i, o);
    match shaped {
        Err(e) if matches!(case, 2 | 3) => nd::check(matches!(e, ProtocolError::Internal(x) if x == ours), "a refusal is passed on"),
        Err(e) => {
            nd::check(case != 6, "the handshake completes");
            suggestion(k, &e);
        }
        Ok(mut p) => {
            nd::check(case >= 4, "a failed handshake is reported");
            if case == 6 {
                match p.read() {
                    Err(e) => suggestion(k, &e),
                    Ok(_) => nd::check(false, "a failed read is reported"),
                }
            } else {
                let mut failed = false;
                for _ in 0..8 {
                    if let Err(e) = p.write(&Payload::genuine(vec![1])) {
                        suggestion(k, &e);
                        failed = true;
                        break;
                    }
                }
                nd::check(failed, "a failed write is reported");
            }
        }
    }
    nd::cover(case == 2, "old protocol");
    nd::cover(case == 6, "read error");
}
// Contents no packet can hold are refused, and the session goes on.
pub fn c18_too_long() {
    rand::model::small();
    rand::model::count(0);
    ghost::set_sparse(300);
    let (r, padding) = (role(nd::bool()), nd::bool());
    let w = wire();
    let c = message(2);
    let over = (1usize << 24) + nd::pick(0, 1);
    let mut p = match open(r, padding, false, &[], out(&w)).0 {
        Some(p) => p,
        None => return nd::check(false, "the handshake completes"),
    };
    match p.write(&Payload::genuine(vec![0; over])) {
        Err(ProtocolError::Internal(Error::PacketTooBig)) => {}
        _ => nd::check(false, "contents no packet can hold are refused"),
    }
    nd::check(p.write(&Payload::genuine(c.clone())).is_ok(), "a message is written after another was refused");
    drop(p);
    settle(&w);
    judge(&receive(r, &w.borrow().out), padding, false, &[(false, c)], &[]);
    nd::cover(padding, "padding");
}

// C20: the sizes the shaper may choose.
fn choose(r: Role, padding: bool, decoys: bool, n: usize, ms: u64) -> Seen {
    let w = wire();
    let (p, _) = open(r, padding, decoys, &[], out(&w));
    let mut p = match p {
        Some(p) => p,
        None => {
            nd::check(false, "the handshake completes whatever is chosen");
            nd::end()
        }
    };
    let mut sent = vec![];
    for _ in 0..n {
        let c = message(1);
        nd::check(p.write(&Payload::genuine(c.clone())).is_ok(), "a message is written whatever is chosen");
        sent.push((false, c));
    }
    if ms > 0 {
        std::thread::sleep(std::time::Duration::from_millis(ms));
    }
    drop(p);
    let s = receive(r, &w.borrow().out);
    judge(&s, padding, decoys, &sent, &[]);
    for d in &s.early {
        nd::check(*d <= 1024 && *d > 0, "decoys are within the documented limit");
    }
    s
}
fn longest(s: &Seen) -> bool {
    s.packets.iter().any(|p| p.1.len() == 1024)
}
pub fn c20_sizes() {
    rand::model::edges();
    let (padding, decoys) = (nd::bool(), nd::bool());
    rand::model::count(2);
    let s = choose(role(nd::bool()), padding, decoys, 1, 0);
    nd::cover(s.garbage == 4095, "longest garbage");
    nd::cover(s.garbage == 0, "no garbage");
    nd::cover(!padding && !decoys, "nothing added");
    nd::cover(longest(&s), "longest decoy");
    nd::cover(s.early.len() == 2, "two decoys");
}
pub fn c20_thread() {
    rand::model::edges();
    rand::model::count(0);
    let s = choose(role(nd::bool()), nd::bool(), true, 0, 150);
    nd::cover(longest(&s), "longest decoy");
}
pub fn c20_garbage() {
    rand::model::only(0);
    let s = choose(Role::Initiator, true, false, 0, 0);
    nd::cover(s.garbage == 4095, "longest garbage");
    nd::cover(s.garbage == 0, "no garbage");
}
pub fn c20_early_decoys() {
    rand::model::only(nd::pick(0, 2));
    let s = choose(Role::Initiator, false, true, 0, 0);
    nd::cover(s.early.len() == 3, "three decoys");
    nd::cover(s.early.iter().any(|x| *x == 1024), "longest decoy");
}
pub fn c20_padding() {
    rand::model::only(1);
    let s = choose(Role::Responder, true, false, 1, 0);
    nd::cover(longest(&s), "longest decoy");
}
pub fn c20_decoys() {
    rand::model::only(0);
    rand::model::count(0);
    let s = choose(Role::Responder, false, true, 0, 150);
    nd::cover(longest(&s), "longest decoy");
}

// C21: garbage which an observer could tell from noise would give the protocol away.
pub fn c21_garbage() {
    let (x, y) = (nd::u8(), nd::u8());
    nd::assume(x != y);
    let r = role(nd::bool());
    let mut g = vec![];
    for b in [x, y] {
        rand::model::most(b);
        let w = wire();
        nd::check(open(r, true, false, &[], out(&w)).0.is_some(), "the handshake completes");
        nd::check(w.borrow().out.len() >= 64 + 4095, "garbage is sent");
        g.push(w.borrow().out[64..64 + 4095].to_vec());
    }
    let mut differ = true;
    for (a, b) in g[0].iter().zip(&g[1]) {
        differ &= a != b;
    }
    nd::check(differ, "all garbage comes from the random source");
    nd::cover(true, "garbage");
}
