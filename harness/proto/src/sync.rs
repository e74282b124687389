//! The stream interfaces: blocking in this crate, async in `fut` (each has its own `api`).
use crate::api::{drain, dst, src, Dst, Protocol, Src, ASYNC};
use bip324::io::{Payload, ProtocolError, ProtocolFailureSuggestion};
use bip324::*;
use common::net::{same, script, suggestion, Wire, KINDS};
use common::*;
use std::cell::RefCell;
use std::io::ErrorKind;
use std::rc::Rc;

nd::harnesses!(
    c05_io_garbage, c05_io_version, c05_io_session, c12_one_cut, c12_two_cuts, c12_sizes, c08_many_io, c12_write, c12_write_twice, c12_flush, c12_leftover, c14_session, c14_handshake, c14_large, c14_large_handshake, c14_garbage, c15_io, c16_kinds,
    c16_io, c17_eof, c17_short, c17_fail, c17_tamper, c17_write, c17_zero, c17_flush, c01_forward, c21_io,
);

fn wire() -> Rc<RefCell<Wire>> {
    Rc::new(RefCell::new(Wire::default()))
}
fn open(r: Role, s: Src, w: Dst) -> Result<Protocol<Src, Dst>, ProtocolError> {
    Protocol::new(MAGIC, r, None, None, s, w)
}
/// Reads everything the peer sent and then the end of the stream.
fn reads_all(p: &mut Protocol<Src, Dst>, sent: &[(bool, Vec<u8>)]) {
    for s in sent {
        match p.read() {
            Ok(m) => nd::check(same(&m, s), "every packet arrives as it was sent, in order"),
            Err(_) => return nd::check(false, "every packet arrives"),
        }
    }
    match p.read() {
        Err(ProtocolError::Io(e, _)) => nd::check(e.kind() == ErrorKind::UnexpectedEof || ASYNC && e.kind() == ErrorKind::ConnectionAborted, "the end of the stream is reported"),
        _ => nd::check(false, "the end of the stream is reported"),
    }
    nd::cover(true, "everything read");
}

// C12: one short or interrupted read anywhere.
pub fn c12_one_cut() {
    let r = role(nd::bool());
    let g = nd::vec([0, 3, 20][nd::pick(0, 2)]);
    let d = nd::vec(2);
    let decoys: &[&[u8]] = if nd::bool() { &[&d] } else { &[] };
    let (a, b) = (nd::vec(3), nd::vec(1));
    let s = script(r, &g, decoys, &[(false, &a), (true, &b), (false, &[])]);
    // garbage which happens to contain its own terminator is no conforming garbage
    no_early(&g, &s.peer.send_term);
    let w = wire();
    let mut i = src(s.data, &w);
    i.budget = 1;
    i.interrupts = true;
    match open(r, i, dst(&w)) {
        Ok(mut p) => reads_all(&mut p, &s.sent),
        Err(_) => nd::check(false, "the handshake completes however the bytes arrive"),
    }
}
pub fn no_early(g: &[u8], t: &[u8]) {
    let mut all = g.to_vec();
    all.extend_from_slice(t);
    let mut early = false;
    for i in 0..g.len() {
        early |= nd::eq(&all[i..i + 16], t);
    }
    nd::assume(!early);
}
// C12: two short or interrupted reads close to each other.
pub fn c12_two_cuts() {
    let r = role(nd::bool());
    let g = [7u8; 5];
    let c = nd::vec(1);
    let s = script(r, &g, &[&[]], &[(false, &c), (false, &[])]);
    let w = wire();
    let mut i = src(s.data, &w);
    i.budget = 2;
    i.interrupts = true;
    match open(r, i, dst(&w)) {
        Ok(mut p) => reads_all(&mut p, &s.sent),
        Err(_) => nd::check(false, "the handshake completes however the bytes arrive"),
    }
}
// C12: every read limited to n bytes, garbage up to its limit.
pub fn c12_sizes() {
    let r = role(nd::bool());
    ghost::set_sparse(300);
    let k = nd::pick(0, 15);
    let gl = [0, 1, 15, 16, 17, 239, 240, 241, 255, 256, 257, 3839, 4079, 4080, 4094, 4095][k];
    let max = if k < 11 { [1, 2, 3, 7, 16, 17, 255, 256, 257, 100_000][nd::pick(0, 9)] } else { [255, 256, 257, 100_000][nd::pick(0, 3)] };
    let g = vec![0x42u8; gl];
    let big = vec![9u8; 1000];
    let c = nd::vec(2);
    let s = script(r, &g, &[&big], &[(false, &c), (true, &[]), (false, &big)]);
    let w = wire();
    let mut i = src(s.data, &w);
    i.max = max;
    match open(r, i, dst(&w)) {
        Ok(mut p) => reads_all(&mut p, &s.sent),
        Err(_) => nd::check(false, "the handshake completes however the bytes arrive"),
    }
    nd::cover(gl == 4095, "longest garbage");
}
// C08: so many decoys that the keys change during the handshake.
pub fn c08_many_io() {
    let r = role(nd::bool());
    let (a, b) = (nd::vec(2), nd::vec(1));
    let i = nd::pick(0, 5);
    let n = [0, 16, 222, 223, 224, 300][i];
    let mut d = vec![vec![]; n];
    d.push(a.clone());
    let k = [1, 224, 225, 100, 223, 300][i];
    let mut e: Vec<&[u8]> = vec![&[]; k];
    e[k / 2] = &b;
    let mut s = script(r, &b, &e, &[(false, &a), (true, &b)]);
    let w = wire();
    let i = src(s.data.clone(), &w);
    let mut p = match Protocol::new(MAGIC, r, Some(a.clone()), Some(d.clone()), i, dst(&w)) {
        Ok(p) => p,
        Err(_) => return nd::check(false, "the handshake completes with any number of decoys"),
    };
    reads_all(&mut p, &s.sent);
    nd::check(p.write(&Payload::genuine(b.clone())).is_ok(), "a message is written");
    let out = w.borrow();
    let d: Vec<&[u8]> = d.iter().map(|x| &x[..]).collect();
    let at = s.peer.read_hello(&out.out, &ALICE, &a, &d);
    nd::check(nd::eq(&out.out[at..], &s.peer.recv.packet(0, &b, &[])), "the bytes that leave are the specified ones");
    nd::cover(n == 300 && k == 300, "many");
}
// C12: short and interrupted writes.
pub fn c12_write() {
    write_cuts(1)
}
pub fn c12_write_twice() {
    write_cuts(2)
}
fn write_cuts(n: usize) {
    let r = role(nd::bool());
    let g = nd::vec(3);
    let d = nd::vec(2);
    let (a, b) = (nd::vec(2), nd::vec(1));
    let mut s = script(r, &[], &[], &[]);
    let w = wire();
    let i = src(s.data.clone(), &w);
    let mut o = dst(&w);
    o.budget = n;
    let mut p = match Protocol::new(MAGIC, r, Some(g.clone()), Some(vec![d.clone(), vec![]]), i, o) {
        Ok(p) => p,
        Err(_) => return nd::check(false, "the handshake completes however the bytes leave"),
    };
    nd::check(p.write(&Payload::genuine(a.clone())).is_ok(), "a message is written");
    nd::check(p.write(&Payload::decoy(b.clone())).is_ok(), "a decoy is written");
    let out = w.borrow();
    nd::check(out.flushed == out.out.len(), "what was written is on its way when the call returns");
    let at = s.peer.read_hello(&out.out, &ALICE, &g, &[&d, &[]]);
    let mut e = s.peer.recv.packet(0, &a, &[]);
    e.extend_from_slice(&s.peer.recv.packet(0x80, &b, &[]));
    nd::check(nd::eq(&out.out[at..], &e), "the bytes that leave are the specified ones");
    nd::cover(true, "all written");
}
// C12: the node never waits for a peer that is entitled to wait for the node.
pub fn c12_flush() {
    let initiator = nd::bool();
    let r = role(initiator);
    let gl = [0, 3, 300][nd::pick(0, 2)];
    let g = vec![1u8; gl];
    let c = nd::vec(2);
    let s = script(r, &[5; 7], &[&[]], &[(false, &c)]);
    let w = wire();
    let mut i = src(s.data.clone(), &w);
    // a responder sends nothing before it has the key of the initiator
    let own = 64;
    i.gates.push((if initiator { 0 } else { 64 }, own));
    // packets after the version packet come when the node's version packet is there
    i.gates.push((s.ends[0], own + gl + 16 + 20));
    match Protocol::new(MAGIC, r, Some(g), None, i, dst(&w)) {
        Ok(mut p) => {
            nd::check(w.borrow().flushed == 64 + gl + 36, "everything is flushed after the handshake");
            reads_all(&mut p, &s.sent);
            let first = nd::bool();
            for i in [first, !first] {
                let m = if i { Payload::decoy(c.clone()) } else { Payload::genuine(vec![]) };
                nd::check(p.write(&m).is_ok(), "a message is written");
                nd::check(w.borrow().flushed == w.borrow().out.len(), "every message is flushed");
            }
        }
        Err(_) => nd::check(false, "the handshake completes"),
    }
}
// C12: bytes read too far ahead are not lost, whichever way the session is taken apart.
pub fn c12_leftover() {
    let r = role(nd::bool());
    let gl = nd::pick(0, 2);
    let g = nd::vec(gl);
    let (a, b) = (nd::vec(2), nd::vec(1));
    let s = script(r, &g, &[], &[(false, &a), (false, &b)]);
    no_early(&g, &s.peer.send_term);
    let w = wire();
    let mut i = src(s.data.clone(), &w);
    // the search reads 256 bytes at once: the stop decides how far ahead it gets
    i.stop = nd::pick(s.ends[0], s.data.len());
    i.fail = Some(ErrorKind::Interrupted);
    i.once = true;
    let p = match open(r, i, dst(&w)) {
        Ok(p) => p,
        Err(_) => return nd::check(false, "the handshake completes"),
    };
    let (mut rd, _) = p.into_split();
    match rd.read() {
        Ok(m) => nd::check(same(&m, &s.sent[0]), "the first packet arrives"),
        Err(_) => return nd::check(false, "the first packet arrives"),
    }
    let (mut c, rest) = rd.into_inner();
    let buf = match drain(rest) {
        Ok(b) => b,
        Err(_) => return nd::check(false, "the rest can be read"),
    };
    nd::check(nd::eq(&buf, &s.data[s.ends[1]..]), "the rest of the stream is complete");
    nd::check(c.decrypt_packet_len([buf[0], buf[1], buf[2]]) == buf.len() - 3, "the cipher is at the next packet");
    match c.decrypt_to_vec(&buf[3..], None) {
        Ok((_, m)) => nd::check(nd::eq(&m[1..], &b), "the next packet is the second"),
        Err(_) => nd::check(false, "the next packet decrypts"),
    }
    nd::cover(gl == 0, "no garbage");
    nd::cover(gl == 2, "garbage");
}

const LIMIT: u64 = 4_000_014 + 16;
// C14: whatever length a packet claims to have, the node does not allocate more than the documented limit for it.
pub fn c14_session() {
    let r = role(nd::bool());
    let mut s = script(r, &[], &[], &[]);
    let n = s.data.len();
    s.data.extend_from_slice(&nd::bytes::<3>());
    s.data.extend_from_slice(&[0; 40]);
    ghost::set_any(true);
    let w = wire();
    let mut i = src(s.data, &w);
    i.max = 16;
    let mut p = match open(r, i, dst(&w)) {
        Ok(p) => p,
        Err(_) => return,
    };
    {
        nd::limit(LIMIT);
        nd::cut(60);
        match p.read() {
            Ok(_) => nd::cover(true, "small packet"),
            Err(ProtocolError::Internal(Error::PacketTooBig)) => {
                nd::check(w.borrow().read == n + 3, "nothing is read of a packet that is too big");
                nd::cover(true, "too big");
            }
            Err(_) => nd::cover(true, "other error"),
        }
    }
}
pub fn c14_handshake() {
    let r = role(nd::bool());
    let mut s = script(r, &[], &[], &[]);
    s.data.truncate(64 + 16);
    s.data.extend_from_slice(&nd::bytes::<3>());
    s.data.extend_from_slice(&[0; 40]);
    ghost::set_any(true);
    let w = wire();
    let mut i = src(s.data, &w);
    i.max = 16;
    nd::limit(LIMIT);
    nd::cut(60);
    match open(r, i, dst(&w)) {
        Ok(_) => nd::cover(true, "small packet"),
        Err(ProtocolError::Internal(Error::PacketTooBig)) => {
            nd::check(w.borrow().read == 64 + 16 + 3, "nothing is read of a packet that is too big");
            nd::cover(true, "too big");
        }
        Err(_) => nd::cover(true, "other error"),
    }
}
// C14: packets up to the limit arrive, without any larger allocation; the first one over it is refused.
pub fn c14_large() {
    let r = role(nd::bool());
    ghost::set_sparse(300);
    let len = [3_999_997, 4_000_012, 4_000_013, 4_000_014, 4_000_015, 8_000_000, 0xff_ffff][nd::pick(0, 6)];
    let c = vec![3u8; len];
    let s = script(r, &[], &[], &[(false, &c)]);
    let n = s.ends[0];
    let w = wire();
    let i = src(s.data, &w);
    let mut p = match open(r, i, dst(&w)) {
        Ok(p) => p,
        Err(_) => return nd::check(false, "the handshake completes"),
    };
    nd::limit(LIMIT);
    let got = p.read();
    nd::limit(u64::MAX);
    match got {
        Ok(m) => {
            nd::check(len <= 4_000_013, "a packet over the limit is refused");
            nd::check(m.contents().len() == len && m.contents() == &c[..], "a packet within the limit arrives");
            nd::cover(len == 4_000_013, "largest");
        }
        Err(ProtocolError::Internal(Error::PacketTooBig)) => {
            nd::check(len > 4_000_013, "a packet within the limit is accepted");
            nd::check(w.borrow().read <= n + 256, "nothing is read of a packet that is too big");
            nd::cover(len == 4_000_014, "smallest refused");
        }
        Err(_) => nd::check(false, "no other error"),
    }
}
// C14: the same for decoys and version packets.
pub fn c14_large_handshake() {
    let r = role(nd::bool());
    ghost::set_sparse(300);
    // (the limit is on all of the packet here)
    let len = [300, 65_536, 3_999_996, 3_999_997, 4_000_015, 8_000_000, 0xff_ffff][nd::pick(0, 6)];
    let decoy = nd::bool();
    let mut p = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    let c = vec![3u8; len];
    let mut data = p.key.to_vec();
    data.extend_from_slice(&p.send_term);
    if decoy {
        let w = p.send.packet(0x80, &c, &[]);
        data.extend_from_slice(&w);
    }
    let w = p.send.packet(0, if decoy { &[] } else { &c }, &[]);
    data.extend_from_slice(&w);
    let m = nd::vec(2);
    let w = p.send.packet(0, &m, &[]);
    data.extend_from_slice(&w);
    let w = wire();
    let i = src(data, &w);
    nd::limit(LIMIT);
    let got = open(r, i, dst(&w));
    nd::limit(u64::MAX);
    match got {
        Ok(mut p) => {
            nd::check(len <= 4_000_014, "a packet over the limit is refused");
            match p.read() {
                Ok(x) => nd::check(x.packet_type() == PacketType::Genuine && nd::eq(x.contents(), &m), "the first packet of the session arrives"),
                Err(_) => nd::check(false, "the first packet of the session arrives"),
            }
            nd::cover(len == 3_999_997 && decoy, "largest decoy");
            nd::cover(len == 3_999_997 && !decoy, "largest version packet");
        }
        Err(ProtocolError::Internal(Error::PacketTooBig)) => {
            nd::check(len > 4_000_014, "a packet within the limit is accepted");
            nd::check(w.borrow().read <= 64 + 16 + 3 + 256, "nothing is read of a packet that is too big");
            nd::cover(decoy, "refused decoy");
            nd::cover(!decoy, "refused version packet");
        }
        Err(_) => nd::check(false, "no other error"),
    }
}
// C14: a peer that never sends a terminator is given up after the limit, with little memory.
pub fn c14_garbage() {
    let r = role(nd::bool());
    let s = script(r, &[], &[], &[]);
    let mut data = s.data[..64].to_vec();
    data.resize(20_000, 0x33);
    let w = wire();
    let mut i = src(data, &w);
    i.max = [1, 100, 255, 256, 100_000][nd::pick(0, 4)];
    nd::limit(20_000);
    match open(r, i, dst(&w)) {
        Err(ProtocolError::Internal(Error::NoGarbageTerminator)) => {
            let n = w.borrow().read - 64;
            nd::check(n >= 4111, "the search is not given up too early");
            nd::check(n <= 2 * 4111, "no more is read than garbage may have");
            nd::cover(true, "given up");
        }
        _ => nd::check(false, "missing garbage terminator is reported"),
    }
}

// C15: what may not be sent is refused before anything leaves.
pub fn c15_io() {
    let r = role(nd::bool());
    ghost::set_sparse(300);
    let mut s = script(r, &[], &[], &[]);
    let w = wire();
    let gl = [0, 4095, 4096, 5000, 70_000][nd::pick(0, 4)];
    let g = vec![3u8; gl];
    let mut p = match Protocol::new(MAGIC, r, Some(g.clone()), None, src(s.data.clone(), &w), dst(&w)) {
        Ok(p) => p,
        Err(ProtocolError::Internal(Error::TooMuchGarbage)) => {
            nd::check(gl > 4095, "4095 bytes of garbage are sent");
            nd::check(w.borrow().out.is_empty(), "nothing leaves before too much garbage is refused");
            return nd::cover(gl == 4096, "too much garbage");
        }
        Err(_) => return nd::check(false, "no other error"),
    };
    nd::check(gl <= 4095, "too much garbage is refused");
    let at = s.peer.read_hello(&w.borrow().out, &ALICE, &g, &[]);
    let over = [1usize << 24, (1 << 24) + 1, (1 << 24) - 1][nd::pick(0, 2)];
    let c = vec![0u8; over];
    let decoy = nd::bool();
    let m = if decoy { Payload::decoy(c.clone()) } else { Payload::genuine(c.clone()) };
    let mut e = Vec::new();
    match p.write(&m) {
        Ok(()) => {
            nd::check(over < 1 << 24, "oversized contents are refused");
            e = s.peer.recv.packet(decoy as u8 * 0x80, &c, &[]);
            nd::cover(true, "largest contents");
        }
        Err(ProtocolError::Internal(Error::PacketTooBig)) => {
            nd::check(over >= 1 << 24, "contents which fit are sent");
            nd::cover(true, "oversized contents");
        }
        Err(_) => nd::check(false, "no other error"),
    }
    // the session goes on
    let c = nd::vec(2);
    nd::check(p.write(&Payload::genuine(c.clone())).is_ok(), "a message is written");
    e.extend_from_slice(&s.peer.recv.packet(0, &c, &[]));
    nd::check(nd::eq(&w.borrow().out[at..], &e), "nothing leaves of what is refused");
}

// C16: kinds of I/O errors and what they suggest.
pub fn c16_kinds() {
    let k = nd::pick(0, 15);
    suggestion(k, &ProtocolError::from(std::io::Error::from(KINDS[k])));
    match ProtocolError::eof() {
        ProtocolError::Io(e, s) => {
            nd::check(e.kind() == ErrorKind::UnexpectedEof && matches!(s, ProtocolFailureSuggestion::RetryV1), "end of file during the handshake")
        }
        _ => nd::check(false, "end of file during the handshake"),
    }
}
// C16: failures anywhere in the handshake; a peer that speaks the old protocol.
pub fn c16_io() {
    let r = role(nd::bool());
    let g = [7u8; 5];
    let s = script(r, &g, &[], &[]);
    let w = wire();
    let mut i = src(s.data.clone(), &w);
    match nd::pick(0, 2) {
        0 => {
            i.stop = nd::pick(0, s.ends[0] - 1);
            i.max = [1, 1000][nd::pick(0, 1)];
            let k = nd::pick(0, 15);
            i.fail = Some(KINDS[k]);
            match open(r, i, dst(&w)) {
                Err(e) => suggestion(k, &e),
                Ok(_) => nd::check(false, "a failed read fails the handshake"),
            }
            nd::cover(true, "read error");
        }
        1 => {
            i.stop = nd::pick(0, s.ends[0] - 1);
            match open(r, i, dst(&w)) {
                Err(e) => suggestion(2, &e),
                Ok(_) => nd::check(false, "a closed connection fails the handshake"),
            }
            nd::cover(true, "closed");
        }
        _ => {
            let mut data = MAGIC.to_vec();
            data.extend_from_slice(&nd::bytes::<70>());
            let i = src(data, &w);
            nd::check(matches!(open(r, i, dst(&w)), Err(ProtocolError::Internal(Error::V1Protocol))), "a peer with the old protocol is recognized");
            nd::check(w.borrow().out.len() == 64, "nothing but the key is sent to a peer with the old protocol");
            nd::cover(true, "old protocol");
        }
    }
}

/// Reads until the first error: everything read is what was sent, in order.
fn prefix(p: &mut Protocol<Src, Dst>, sent: &[(bool, Vec<u8>)]) -> usize {
    let mut n = 0;
    loop {
        match p.read() {
            Ok(m) => {
                nd::check(n < sent.len(), "nothing is made up");
                nd::check(same(&m, &sent[n]), "what is read is what was sent");
                n += 1;
            }
            Err(_) => return n,
        }
    }
}
// C17: the stream ends, for good, at any point.
pub fn c17_eof() {
    let r = role(nd::bool());
    let c = nd::vec(2);
    let s = script(r, &[7; 5], &[&[1]], &[(false, &c), (true, &[]), (false, &c)]);
    let w = wire();
    let mut i = src(s.data.clone(), &w);
    let stop = nd::pick(0, s.data.len());
    i.stop = stop;
    i.max = [1000, 1][nd::pick(0, 1)];
    if nd::bool() {
        i.fail = Some(ErrorKind::ConnectionReset);
    }
    match open(r, i, dst(&w)) {
        Ok(mut p) => {
            nd::check(stop >= s.ends[0], "no session without the whole handshake");
            let n = prefix(&mut p, &s.sent);
            let complete = s.ends.iter().filter(|e| **e <= stop).count() - 1;
            nd::check(n == complete, "every packet that arrived is delivered");
            nd::check(p.read().is_err(), "errors persist at the end of the stream");
            nd::cover(n == 3, "all");
            nd::cover(n == 1, "one");
        }
        Err(_) => {
            nd::check(stop < s.ends[0], "the handshake completes when all of it arrived");
            nd::cover(true, "handshake fails");
        }
    }
}
// C17: even if anything at all is authentic, a packet which did not arrive whole is not delivered.
pub fn c17_short() {
    let r = role(nd::bool());
    let c = nd::vec(2);
    let s = script(r, &[], &[], &[(false, &c), (true, &[]), (false, &c)]);
    let w = wire();
    let mut i = src(s.data.clone(), &w);
    let stop = nd::pick(64, s.data.len());
    i.stop = stop;
    i.max = [1000, 1, 16][nd::pick(0, 2)];
    ghost::set_any(true);
    match open(r, i, dst(&w)) {
        Ok(mut p) => {
            nd::check(stop >= s.ends[0], "no session without the whole handshake");
            let mut n = 0;
            while let Ok(m) = p.read() {
                nd::check(n < 3 && s.ends[n + 1] <= stop, "a packet which did not arrive whole is not delivered");
                nd::check(same(&m, &s.sent[n]), "what is read is what was sent");
                n += 1;
            }
            nd::cover(n == 3, "all");
            nd::cover(n == 1, "one");
        }
        Err(_) => nd::cover(true, "handshake fails"),
    }
}
// C17: a transient error at any point, and the caller just goes on.
pub fn c17_fail() {
    ghost::set_ideal(true);
    let r = role(nd::bool());
    let c = [0x5a, 0xc3];
    let s = script(r, &[], &[], &[(false, &c), (true, &c), (false, &[])]);
    let w = wire();
    let mut i = src(s.data.clone(), &w);
    i.stop = nd::pick(s.ends[0], s.data.len() - 1);
    i.fail = Some(ErrorKind::WouldBlock);
    i.once = true;
    i.max = [1000, 1][nd::pick(0, 1)];
    let mut p = match open(r, i, dst(&w)) {
        Ok(p) => p,
        Err(_) => return nd::check(false, "the handshake completes"),
    };
    let n = prefix(&mut p, &s.sent);
    let m = prefix(&mut p, &s.sent[n..]);
    nd::cover(n + m == 3, "nothing lost between packets");
    nd::cover(ASYNC || n + m < 3, "lost within a packet");
}
// C17: a byte changed anywhere after the keys.
pub fn c17_tamper() {
    ghost::set_ideal(true);
    let r = role(nd::bool());
    let c = [0x5a, 0xc3];
    let s = script(r, &[7; 5], &[&[1]], &[(false, &c), (true, &[]), (false, &c)]);
    let mut data = s.data.clone();
    let at = nd::pick(64, data.len() - 1);
    let in_len = [85, 106].contains(&at) || s.ends.iter().any(|e| at >= *e && at < *e + 3) || (85..88).contains(&at) || (106..109).contains(&at);
    let x = if in_len { [1, 0x10, 0x80][nd::pick(0, 2)] } else { nd::u8() };
    nd::assume(x != 0);
    data[at] ^= x;
    let w = wire();
    let i = src(data, &w);
    match open(r, i, dst(&w)) {
        Ok(mut p) => {
            nd::check(at >= s.ends[0], "no session after a tampered handshake");
            let mut n = 0;
            let e = loop {
                match p.read() {
                    Ok(m) => {
                        nd::check(n < s.sent.len() && same(&m, &s.sent[n]), "what is read is what was sent");
                        n += 1;
                    }
                    Err(e) => break e,
                }
            };
            if !in_len {
                nd::check(matches!(e, ProtocolError::Internal(Error::Decryption(_))), "a tampered packet is reported as such");
            }
            let before = s.ends.iter().filter(|e| **e <= at).count() - 1;
            nd::check(n == before, "exactly the packets before the tampered one are delivered");
            nd::check(p.read().is_err(), "nothing is delivered after a tampered packet");
            nd::cover(n == 2, "last packet tampered");
        }
        Err(_) => {
            nd::check(at < s.ends[0], "the handshake is not affected by later bytes");
            nd::cover(true, "handshake fails");
        }
    }
}
// C17: a writer that fails at any point: the error is reported, and what left is a prefix of the right bytes.
pub fn c17_write() {
    writer(false)
}
// C17: a writer that takes nothing any more.
pub fn c17_zero() {
    writer(true)
}
fn writer(zero: bool) {
    let r = role(nd::bool());
    let g = [4u8; 3];
    let c = nd::vec(2);
    let mut s = script(r, &[], &[], &[]);
    let w = wire();
    let i = src(s.data.clone(), &w);
    let mut o = dst(&w);
    let total = 64 + 3 + 36 + 22 + 22;
    o.stop = nd::pick(0, total);
    let stop = o.stop;
    let k = if zero { 14 } else { nd::pick(0, 1) * 8 };
    o.fail = KINDS[k];
    o.zero = zero;
    let mut done = 0;
    match Protocol::new(MAGIC, r, Some(g.to_vec()), None, i, o) {
        Err(e) => {
            nd::check(stop < 64 + 3 + 36, "the handshake completes when all of it left");
            suggestion(k, &e);
        }
        Ok(mut p) => {
            for _ in 0..2 {
                match p.write(&Payload::genuine(c.clone())) {
                    Ok(()) => done += 1,
                    Err(e) => {
                        suggestion(k, &e);
                        break;
                    }
                }
            }
            nd::check(done == (stop - (64 + 3 + 36)) / 22, "a write succeeds exactly if all of it left");
            nd::cover(done == 1, "second write fails");
        }
    }
    let mut e = ellswift(&ALICE).to_vec();
    e.extend_from_slice(&g);
    e.extend_from_slice(&s.peer.recv_term);
    e.extend_from_slice(&s.peer.recv.packet(0, &[], &g));
    e.extend_from_slice(&s.peer.recv.packet(0, &c, &[]));
    e.extend_from_slice(&s.peer.recv.packet(0, &c, &[]));
    nd::check(nd::eq(&w.borrow().out, &e[..w.borrow().out.len()]), "what left is what should have left");
}

// C17: a writer that cannot flush from some point on.
pub fn c17_flush() {
    let r = role(nd::bool());
    let c = nd::vec(2);
    let s = script(r, &[], &[], &[]);
    let w = wire();
    let i = src(s.data.clone(), &w);
    let mut o = dst(&w);
    let k = nd::pick(0, 15);
    o.fail = KINDS[k];
    let hello = 64 + 36;
    let ends = [64, hello, hello + 22, hello + 44];
    let n = nd::pick(0, 3);
    o.stuck = ends[n] - 1;
    let mut done = 2;
    match Protocol::new(MAGIC, r, None, None, i, o) {
        Err(e) => suggestion(k, &e),
        Ok(mut p) => {
            for _ in 0..2 {
                match p.write(&Payload::genuine(c.clone())) {
                    Ok(()) => done += 1,
                    Err(e) => {
                        suggestion(k, &e);
                        break;
                    }
                }
            }
            nd::check(done == n, "a write succeeds exactly if all of it was flushed");
        }
    }
    nd::check(done == n || n < 2, "the handshake succeeds exactly if all of it was flushed");
    nd::check(w.borrow().out.len() == ends[n], "nothing follows what cannot be flushed");
    nd::cover(n == 3, "second write fails");
}
// C01: what was read can be sent on as it is.
pub fn c01_forward() {
    let r = role(nd::bool());
    let n = nd::pick(0, 3);
    let (a, b) = (nd::vec(n), nd::vec(2));
    let mut s = script(r, &[], &[], &[(nd::bool(), &a), (nd::bool(), &b)]);
    let w = wire();
    let i = src(s.data.clone(), &w);
    let mut p = match open(r, i, dst(&w)) {
        Ok(p) => p,
        Err(_) => return nd::check(false, "the handshake completes"),
    };
    let at = w.borrow().out.len();
    let mut e = vec![];
    s.peer.read_hello(&w.borrow().out, &ALICE, &[], &[]);
    for (decoy, c) in &s.sent {
        match p.read() {
            Ok(m) => {
                nd::check(same(&m, &(*decoy, c.clone())), "every packet arrives as it was sent");
                let copy = m.clone();
                nd::check(same(&copy, &(*decoy, c.clone())), "a copy is the same");
                for m in [m, copy] {
                    nd::check(p.write(&m).is_ok(), "a message read is written");
                    e.extend_from_slice(&s.peer.recv.packet(if *decoy { 0x80 } else { 0 }, c, &[]));
                }
            }
            Err(_) => return nd::check(false, "every packet arrives"),
        }
    }
    nd::check(nd::eq(&w.borrow().out[at..], &e), "what was read is sent on as it was");
    nd::cover(n == 0, "empty");
}

// C05: whatever bytes a peer sends, reading never panics.
fn any_bytes(stage: usize, n: usize, max: usize, cut: u64) {
    let r = role(nd::bool());
    let s = script(r, &[], &[], &[]);
    let mut data = s.data[..[64, 80, 100][stage]].to_vec();
    data.extend_from_slice(&nd::vec(n));
    ghost::set_any(true);
    let w = wire();
    let mut i = src(data, &w);
    i.max = max;
    nd::cut(cut);
    let mut p = match open(r, i, dst(&w)) {
        Ok(p) => p,
        Err(_) => return nd::cover(true, "handshake fails"),
    };
    for k in 0..2 {
        match p.read() {
            Ok(m) => {
                let _ = (m.packet_type(), m.contents().len());
                nd::cover(k == 0, "one packet");
                nd::cover(k == 1, "two packets");
            }
            Err(_) => return nd::cover(true, "read fails"),
        }
    }
}
pub fn c05_io_garbage() {
    any_bytes(0, [0, 15, 16, 18, 20][nd::pick(0, 4)], 1000, 24);
}
pub fn c05_io_version() {
    any_bytes(1, [0, 2, 3, 19, 20, 22][nd::pick(0, 5)], [1000, 16][nd::pick(0, 1)], 24);
}
pub fn c05_io_session() {
    let n = [0, 2, 3, 19, 20, 40][nd::pick(0, 5)];
    any_bytes(2, n, [1000, 16][nd::pick(0, (n < 40) as usize)], 24);
}

// C21: each session's secret is what the random source returns for it.
pub fn c21_io() {
    let r = role(nd::bool());
    for _ in 0..2 {
        let mut sk: [u8; 32] = nd::bytes();
        nd::assume((sk[0] < 0xff) & (sk[31] != 0));
        sk[31] |= 1;
        secp256k1::rand::set_seed(sk);
        let w = wire();
        nd::check(open(r, src(vec![], &w), dst(&w)).is_err(), "no handshake without a peer");
        nd::check(w.borrow().out.len() >= 64 && nd::eq(&w.borrow().out[..64], &ellswift(&sk)), "the secret is what was drawn for this session");
    }
    nd::cover(true, "two sessions");
}
