//! A remote peer with the reference protocol, given all bytes that reached it.
use crate::*;

/// What a peer makes of the bytes that reached it.
#[derive(Default)]
pub struct Seen {
    pub garbage: usize,
    /// sizes of the decoys before the version packet
    pub early: Vec<usize>,
    /// is it a decoy; contents
    pub packets: Vec<(bool, Vec<u8>)>,
    /// the version packet is complete; nothing is left over
    pub hello: bool,
    pub whole: bool,
    /// where each packet ends
    pub ends: Vec<usize>,
}
pub fn receive(r: Role, b: &[u8]) -> Seen {
    parse(r, b, true)
}
/// Everything up to the first packet that is not valid.
pub fn receive_valid(r: Role, b: &[u8]) -> Seen {
    parse(r, b, false)
}
fn parse(r: Role, b: &[u8], strict: bool) -> Seen {
    let mut p = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    let mut s = Seen::default();
    if b.len() < 64 {
        return s;
    }
    nd::check(nd::eq(&b[..64], &ellswift(&ALICE)), "the key comes first");
    let mut at = 64;
    loop {
        if b.len() < at + 16 {
            return s;
        }
        // garbage which contains the terminator by chance is none
        if nd::eq(&b[at..at + 16], &p.recv_term) {
            break;
        }
        at += 1;
    }
    s.garbage = at - 64;
    nd::check(s.garbage <= 4095, "garbage is within the protocol's limit");
    let garbage = b[64..at].to_vec();
    let mut aad: &[u8] = &garbage;
    at += 16;
    loop {
        if at == b.len() {
            s.whole = s.hello;
            return s;
        }
        if b.len() < at + 3 {
            return s;
        }
        let l = p.recv.length([b[at], b[at + 1], b[at + 2]]);
        let l = nd::conc(u32::from_le_bytes([l[0], l[1], l[2], 0]) as u64) as usize;
        if b.len() < at + 20 + l {
            return s;
        }
        match p.recv.open(&b[at..at + 20 + l], aad) {
            None => {
                nd::check(!strict, "every packet that reaches the peer is valid");
                return s;
            }
            Some((h, c)) => {
                let decoy = nd::conc((h & 0x80) as u64) != 0;
                if s.hello {
                    s.packets.push((decoy, c));
                    s.ends.push(at + 20 + l);
                } else if decoy {
                    s.early.push(c.len());
                } else {
                    nd::check(c.is_empty(), "the version packet is empty");
                    s.hello = true;
                }
            }
        }
        aad = &[];
        at += 20 + l;
    }
}

/// The application's messages among the packets, in order, with what shaping may add; `marks`: what had been handed to
/// the transport when each write was reported done.
pub fn judge(s: &Seen, padding: bool, decoys: bool, sent: &[(bool, Vec<u8>)], marks: &[usize]) {
    nd::check(s.whole, "what reached the peer is a whole number of packets");
    if !padding {
        nd::check(s.garbage == 0, "no garbage without padding");
    }
    if !decoys {
        nd::check(s.early.is_empty(), "no decoys without a decoy strategy");
    }
    let mut k = 0;
    let mut before = false;
    let mut extra = 0;
    for (i, p) in s.packets.iter().enumerate() {
        // shaping decoys are zeros; the application's messages here never are
        let ours = k < sent.len() && p.0 == sent[k].0 && nd::eq(&p.1, &sent[k].1);
        if ours {
            nd::check(before || !padding, "padding precedes every message");
            nd::check(marks.get(k).map_or(true, |m| s.ends[i] <= *m), "a write reported done has been handed to the transport");
            k += 1;
            before = false;
        } else {
            nd::check(p.0, "the peer receives exactly the application's messages, in order");
            nd::check(!p.1.is_empty() && p.1.len() <= 1024, "decoys are within the documented limit");
            before = true;
            extra += 1;
        }
    }
    nd::check(k == sent.len(), "every message written reaches the peer");
    if !padding && !decoys {
        nd::check(extra == 0, "nothing is added without a strategy");
    }
    if !decoys {
        nd::check(!before, "only padding is added without a decoy strategy");
    }
}
