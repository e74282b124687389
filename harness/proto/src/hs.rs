//! The sans-I/O handshake.
use bip324::*;
use common::*;

nd::harnesses!(
    c05_handshake, c07_keys, c07_secret, c07_pair, c08_any_peer, c08_long, c08_many, c09_short, c09_long, c09_positions, c09_chunks, c10_received, c10_sent, c10_long,
    c11_handshake, c11_long, c15_handshake, c16_v1, c21_new, c21_fill,
);

/// Secret key that is certainly valid, otherwise arbitrary.
fn any_secret() -> [u8; 32] {
    let mut k: [u8; 32] = nd::bytes();
    nd::assume((k[0] < 0xff) & (k[31] != 0));
    k[31] |= 1;
    k
}
/// The node's garbage search on data that arrives in the given pieces: growing buffer, as documented.
fn search<'a>(mut h: Handshake<SentVersion>, data: &'a [u8], ends: &[usize]) -> Option<(Handshake<ReceivedGarbage<'a>>, usize)> {
    for e in ends {
        match h.receive_garbage(&data[..*e]) {
            Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes }) => return Some((handshake, consumed_bytes)),
            Ok(GarbageResult::NeedMoreData(x)) => h = x,
            Err(_) => {
                nd::check(false, "the garbage of a conforming peer is found");
                return None;
            }
        }
    }
    nd::check(false, "the garbage terminator is found once it is there");
    None
}
/// Packets up to and including the version packet.
fn packets(mut h: Handshake<ReceivedGarbage>, data: &[u8], decoys: usize) -> Option<(CipherSession, usize)> {
    let mut at = 0;
    let mut n = 0;
    loop {
        let len = match h.decrypt_packet_len([data[at], data[at + 1], data[at + 2]]) {
            Ok(n) => n,
            Err(_) => {
                nd::check(false, "the length of a conforming peer's packet decrypts");
                return None;
            }
        };
        nd::check(len >= 17 && at + 3 + len <= data.len(), "the length of a conforming peer's packet is right");
        let mut b = data[at + 3..at + 3 + len].to_vec();
        at += 3 + len;
        match h.receive_version(&mut b) {
            Ok(VersionResult::Complete { cipher }) => {
                nd::check(n == decoys, "exactly the decoys are skipped");
                return Some((cipher, at));
            }
            Ok(VersionResult::Decoy(x)) => h = x,
            Err(_) => {
                nd::check(false, "a conforming peer's packet is accepted");
                return None;
            }
        }
        n += 1;
        nd::check(n <= decoys, "the version packet ends the handshake");
    }
}
/// One packet in each direction between a session and the reference peer.
fn exchange(s: &mut CipherSession, p: &mut RefPeer) {
    nd::check(nd::eq(s.id(), &p.id), "session id is the specified one");
    let c = nd::vec(3);
    let w = s.outbound().encrypt_to_vec(&c, PacketType::Genuine, None);
    let e = p.recv.packet(0, &c, &[]);
    nd::check(nd::eq(&w, &e), "first packet after the handshake is the specified one");
    let e = p.send.packet(0, &c, &[]);
    nd::check(s.inbound().decrypt_packet_len([e[0], e[1], e[2]]) == e.len() - 3, "first packet's length after the handshake");
    match s.inbound().decrypt_to_vec(&e[3..], None) {
        Ok((t, m)) => nd::check(t == PacketType::Genuine && nd::eq(&m[1..], &c), "first packet after the handshake arrives"),
        Err(_) => nd::check(false, "first packet after the handshake arrives"),
    }
}
/// The node's side of a whole handshake with the reference peer.
fn whole(r: Role, garbage: Option<&[u8]>, decoys: Option<&[&[u8]]>, pg: &[u8], pd: &[&[u8]], cut: impl Fn(usize) -> Vec<usize>) {
    let mut p = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    let h = init(MAGIC, r, ALICE);
    nd::check(*h.magic() == MAGIC && h.role() == r, "magic and role are reported");
    let mut sent = vec![0u8; Handshake::<Initialized>::send_key_len(garbage)];
    let h = match h.send_key(garbage, &mut sent) {
        Ok(h) => h,
        Err(_) => return nd::check(false, "key and garbage are sent"),
    };
    let h = match h.receive_key(p.key) {
        Ok(h) => h,
        Err(_) => return nd::check(false, "the peer's key is accepted"),
    };
    let mut v = vec![0u8; Handshake::<ReceivedKey>::send_version_len(decoys)];
    let h = match h.send_version(&mut v, decoys) {
        Ok(h) => h,
        Err(_) => return nd::check(false, "terminator, decoys and version are sent"),
    };
    nd::check(*h.magic() == MAGIC && h.role() == r, "magic and role are reported");
    sent.extend_from_slice(&v);
    let end = p.read_hello(&sent, &ALICE, garbage.unwrap_or(&[]), decoys.unwrap_or(&[]));
    nd::check(end == sent.len(), "the node sends nothing else");
    let hello = p.hello(pg, pd);
    let data = &hello[64..];
    if let Some((h, n)) = search(h, data, &cut(data.len())) {
        nd::check(n == pg.len() + 16, "garbage and terminator are consumed, nothing else");
        if let Some((mut s, m)) = packets(h, &data[n..], pd.len()) {
            nd::check(n + m == data.len(), "everything the peer sent is consumed");
            exchange(&mut s, &mut p);
            nd::cover(true, "handshake completed");
        }
    }
}

// C08: any conforming peer: garbage, decoys, roles, arrival.
pub fn c08_any_peer() {
    let initiator = nd::bool();
    let gl = [0, 1, 20][nd::pick(0, 2)];
    let g = nd::vec(gl);
    let g = if nd::bool() { Some(&g[..]) } else { None };
    let (d0, d1) = (nd::vec(2), nd::vec(0));
    let decoys: [&[u8]; 2] = [&d0, &d1];
    let nd_ = nd::pick(0, 3);
    let decoys = if nd_ == 3 { None } else { Some(&decoys[..nd_]) };
    let pgl = [0, 1, 2, 15, 16, 17, 40][nd::pick(0, 6)];
    // the peer's garbage does not contain its own terminator (nor run into it)
    let pg = nd::vec(pgl);
    let p = RefPeer::new(&MAGIC, role(initiator), &ALICE, &BOB);
    let mut t = pg.clone();
    t.extend_from_slice(&p.send_term);
    let mut early = false;
    for i in 0..pgl {
        early |= nd::eq(&t[i..i + 16], &p.send_term);
    }
    nd::assume(!early);
    let (e0, e1) = (nd::vec(1), nd::vec(4));
    let pds: [&[u8]; 2] = [&e0, &e1];
    let pd = &pds[..nd::pick(0, 2)];
    let by_one = nd::bool();
    whole(role(initiator), g, decoys, &pg, pd, |n| if by_one { (0..=n).collect() } else { vec![0, n] });
    nd::cover(g.is_some() && gl == 20 && nd_ == 2 && pgl == 40 && pd.len() == 2, "everything at once");
}
// C08: garbage of maximal size and large decoys in both directions.
pub fn c08_long() {
    let initiator = nd::bool();
    ghost::set_sparse(200);
    let mut g = vec![0xABu8; 4095];
    g[..4].copy_from_slice(&nd::bytes::<4>());
    g[4091..].copy_from_slice(&nd::bytes::<4>());
    let big = vec![1u8; 5000];
    let big2 = vec![2u8; 70000];
    let own: [&[u8]; 2] = [&big, &[]];
    let theirs: [&[u8]; 3] = [&big2, &[], &big];
    let l = [4095, 4094, 4080, 2048][nd::pick(0, 3)];
    let first = nd::pick(0, 16);
    whole(role(initiator), Some(&g), Some(&own), &g[..l], &theirs, |n| vec![l, l + first, n]);
    nd::cover(l == 4095 && first == 15, "longest garbage, terminator cut");
}
// C08: so many decoys that the keys change during the handshake.
pub fn c08_many() {
    let (a, b) = (nd::vec(2), nd::vec(1));
    let i = nd::pick(0, 5);
    let n = [16, 222, 223, 224, 225, 300][i];
    let mut d: Vec<&[u8]> = vec![&[]; n];
    d[n - 1] = &a;
    let k = [225, 223, 222, 16, 224, 300][i];
    let mut e: Vec<&[u8]> = vec![&[]; k];
    e[k / 2] = &b;
    let garbage = nd::bool();
    let g: &[u8] = if garbage { &a } else { &[] };
    whole(role(nd::bool()), Some(g), Some(&d), g, &e, |n| vec![n]);
    nd::cover(n == 300 && k == 300, "many");
}

// C07: keys, terminators and session id come from the two points, the magic and the roles.
pub fn c07_keys() {
    let magic: [u8; 4] = nd::bytes();
    let (sk, pk) = (any_secret(), any_secret());
    let r = role(nd::bool());
    let mut p = RefPeer::new(&magic, r, &sk, &pk);
    nd::assume(!nd::eq(&p.key[..4], &magic));
    let h = init(magic, r, sk);
    let mut k = [0u8; 64];
    let h = h.send_key(None, &mut k).unwrap();
    nd::check(nd::eq(&k, &ellswift(&sk)), "the node's public key belongs to its secret");
    let h = match h.receive_key(p.key) {
        Ok(h) => h,
        Err(_) => return nd::check(false, "the peer's key is accepted"),
    };
    let mut v = [0u8; 36];
    let h = h.send_version(&mut v, None).unwrap();
    nd::check(nd::eq(&v[..16], &p.recv_term), "the node sends the terminator of its role");
    let w = p.recv.packet(0, &[], &[]);
    nd::check(nd::eq(&v[16..], &w), "the node encrypts with the keys of its role");
    let mut t = p.send_term.to_vec();
    let w = p.send.packet(0, &[], &[]);
    t.extend_from_slice(&w);
    match h.receive_garbage(&t) {
        Ok(GarbageResult::FoundGarbage { handshake: mut h, consumed_bytes }) => {
            nd::check(consumed_bytes == 16, "the node expects the terminator of the other role");
            nd::check(matches!(h.decrypt_packet_len([t[16], t[17], t[18]]), Ok(17)), "the node decrypts lengths with the keys of the other role");
            match h.receive_version(&mut t[19..].to_vec()) {
                Ok(VersionResult::Complete { cipher }) => {
                    nd::check(nd::eq(cipher.id(), &p.id), "session id is the specified one");
                    nd::cover(true, "complete");
                }
                _ => nd::check(false, "the node decrypts with the keys of the other role"),
            }
        }
        _ => nd::check(false, "the node expects the terminator of the other role"),
    }
}
// C07: a secret is used as it is or refused.
pub fn c07_secret() {
    let sk: [u8; 32] = nd::bytes();
    nd::assume(!nd::eq(&sk, &[0; 32]));
    let r = role(nd::bool());
    match Handshake::<Initialized>::new_with_rng(MAGIC, r, &mut Fixed(sk), &secp256k1::Secp256k1::signing_only()) {
        Ok(h) => {
            let mut k = [0u8; 64];
            nd::check(h.send_key(None, &mut k).is_ok(), "key is sent");
            nd::check(nd::eq(&k, &ellswift(&sk)), "the node's public key belongs to its secret");
            nd::cover(true, "valid secret");
        }
        Err(_) => {
            nd::check(sk[0] == 0xff, "a valid secret is accepted");
            nd::cover(true, "invalid secret")
        }
    }
}
// C07: two nodes of opposite roles end up with the same session, and only with the same magic.
pub fn c07_pair() {
    let magic: [u8; 4] = nd::bytes();
    let (sa, sb) = (any_secret(), any_secret());
    let a = init(magic, Role::Initiator, sa);
    let b = init(magic, Role::Responder, sb);
    let mut ka = [0u8; 64];
    let mut kb = [0u8; 64];
    let a = a.send_key(None, &mut ka).unwrap();
    let b = b.send_key(None, &mut kb).unwrap();
    nd::assume(!nd::eq(&ka[..4], &magic) & !nd::eq(&kb[..4], &magic));
    let (a, b) = match (a.receive_key(kb), b.receive_key(ka)) {
        (Ok(a), Ok(b)) => (a, b),
        _ => return nd::check(false, "keys are accepted"),
    };
    let mut va = [0u8; 36];
    let mut vb = [0u8; 36];
    let a = a.send_version(&mut va, None).unwrap();
    let b = b.send_version(&mut vb, None).unwrap();
    let (mut a, mut b) = (finish(a, &vb), finish(b, &va));
    nd::check(nd::eq(a.id(), b.id()), "both nodes have the same session id");
    for _ in 0..2 {
        let c = nd::vec(3);
        for (x, y) in [(&mut a, &mut b)] {
            let p = x.outbound().encrypt_to_vec(&c, PacketType::Genuine, None);
            nd::check(y.inbound().decrypt_packet_len([p[0], p[1], p[2]]) == 20, "length arrives");
            match y.inbound().decrypt_to_vec(&p[3..], None) {
                Ok((_, m)) => nd::check(nd::eq(&m[1..], &c), "contents arrive"),
                Err(_) => nd::check(false, "packets arrive"),
            }
        }
        std::mem::swap(&mut a, &mut b);
    }
    nd::cover(true, "session");
}

fn term(r: Role) -> [u8; 16] {
    RefPeer::new(&MAGIC, r, &ALICE, &BOB).send_term
}
/// Checks one call against the definition of the search: the first occurrence at 0..=4095.
fn searched(data: &[u8], t: &[u8; 16], from: usize, got: Result<GarbageResult, Error>) {
    let mut first: Option<usize> = None;
    match got {
        Ok(GarbageResult::FoundGarbage { consumed_bytes, .. }) => {
            nd::check(consumed_bytes >= 16 && consumed_bytes <= data.len() && consumed_bytes <= 4111, "garbage found within the limits");
            first = Some(consumed_bytes - 16);
            nd::check(nd::eq(&data[consumed_bytes - 16..consumed_bytes], t), "garbage ends with the terminator");
            nd::cover(true, "found");
        }
        Ok(GarbageResult::NeedMoreData(_)) => {
            nd::check(data.len() < 4111, "no more data is asked for than garbage may have");
            nd::cover(true, "more data");
        }
        Err(Error::NoGarbageTerminator) => {
            nd::check(data.len() >= 4111, "the search is only given up when the limit is reached");
            nd::cover(true, "given up");
        }
        Err(_) => nd::check(false, "no other error"),
    }
    // no occurrence was missed
    let end = match first {
        Some(i) => i,
        None => (data.len() + 1).saturating_sub(16).min(4096),
    };
    let mut missed = false;
    for i in from..end {
        missed |= nd::eq(&data[i..i + 16], t);
    }
    nd::check(!missed, "the first terminator is the one that counts");
}
// C09: any data of up to 44 bytes.
pub fn c09_short() {
    let r = role(nd::bool());
    let h = sent_version(r, ALICE, RefPeer::new(&MAGIC, r, &ALICE, &BOB).key);
    let n = nd::pick(0, 44);
    let data = nd::vec(n);
    searched(&data, &term(r), 0, h.receive_garbage(&data));
}
// C09: around the limit of 4095 bytes of garbage, any data there.
pub fn c09_long() {
    let r = role(nd::bool());
    let h = sent_version(r, ALICE, RefPeer::new(&MAGIC, r, &ALICE, &BOB).key);
    let n = [4094, 4095, 4096, 4109, 4110, 4111, 4112, 4113, 4130][nd::pick(0, 8)];
    let mut data = vec![0xEEu8; n];
    nd::fill(&mut data[4080..n.min(4120)]);
    searched(&data, &term(r), 4064, h.receive_garbage(&data));
}
// C09: the terminator anywhere, also twice.
pub fn c09_positions() {
    let r = role(nd::bool());
    let h = sent_version(r, ALICE, RefPeer::new(&MAGIC, r, &ALICE, &BOB).key);
    let t = term(r);
    let at = match nd::pick(0, 40) {
        i @ 0..=31 => i * 131,
        i => 4064 + (i - 31) * 4,
    };
    let at = if at == 4100 { 4095 } else { at };
    let after = [0usize, 1, 40, 5000][nd::pick(0, 3)];
    let mut data = vec![0x77u8; at];
    data.extend_from_slice(&t);
    data.resize(at + 16 + after, 0x77);
    if after == 40 {
        data[at + 20..at + 36].copy_from_slice(&t);
    }
    match h.receive_garbage(&data) {
        Ok(GarbageResult::FoundGarbage { consumed_bytes, .. }) => {
            nd::check(at <= 4095 && consumed_bytes == at + 16, "the terminator is found where it is")
        }
        Err(Error::NoGarbageTerminator) => nd::check(at > 4095, "a terminator within the limit is found"),
        _ => nd::check(false, "the search ends"),
    }
    nd::cover(at == 4095, "last allowed position");
}
// C09: the outcome does not depend on how often the search was tried before on less data.
pub fn c09_chunks() {
    let r = role(nd::bool());
    let key = RefPeer::new(&MAGIC, r, &ALICE, &BOB).key;
    let t = term(r);
    let n = [16, 17, 18, 24, 36][nd::pick(0, 4)];
    let data = nd::vec(n);
    let a = nd::pick(0, n);
    let b = n.min(a + [0, 1, 2, 16][nd::pick(0, 3)]);
    let mut h = sent_version(r, ALICE, key);
    for e in [a, b] {
        match h.receive_garbage(&data[..e]) {
            Ok(GarbageResult::NeedMoreData(x)) => h = x,
            other => {
                nd::cover(true, "found early");
                return searched(&data, &t, 0, other);
            }
        }
    }
    searched(&data, &t, 0, h.receive_garbage(&data));
}

// C10: the garbage received is authenticated by the first packet, whatever it is, and by no other.
pub fn c10_received() {
    ghost::set_ideal(true);
    let r = role(nd::bool());
    let mut p = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    let h = sent_version(r, ALICE, p.key);
    // what the peer authenticated, and what arrived
    let sent = nd::vec(nd::pick(0, 3));
    let arrived = nd::vec(nd::pick(0, 3));
    let decoys = nd::pick(0, 2);
    // (wrong) associated data of the packets after the first
    let later = nd::vec(nd::pick(0, 3));
    let mut data = arrived.clone();
    data.extend_from_slice(&p.send_term);
    let size = nd::pick(0, 1);
    let body = nd::vec(size);
    for i in 0..=decoys {
        let w = p.send.packet(if i < decoys { 0x80 } else { 0 }, &body, if i == 0 { &sent } else { &later });
        data.extend_from_slice(&w);
    }
    let g = arrived.len();
    // (the first window in which the terminator can match is not the question here: see C09)
    let (mut h, n) = match h.receive_garbage(&data) {
        Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes }) => (handshake, consumed_bytes),
        _ => return nd::check(false, "garbage is found"),
    };
    nd::assume(n == g + 16);
    let mut at = n;
    for i in 0..=decoys {
        let len = h.decrypt_packet_len([data[at], data[at + 1], data[at + 2]]).unwrap();
        nd::check(len == 17 + size, "length");
        let mut b = data[at + 3..at + 20 + size].to_vec();
        at += 20 + size;
        let good = if i == 0 { nd::eq(&sent, &arrived) } else { later.is_empty() };
        match h.receive_version(&mut b) {
            Ok(VersionResult::Complete { .. }) => {
                nd::check(good, "garbage must be authentic in the first packet and absent in the others");
                nd::check(i == decoys, "only the version packet completes the handshake");
                nd::cover(decoys == 2 && g == 3, "garbage, two decoys");
                return;
            }
            Ok(VersionResult::Decoy(x)) => {
                nd::check(good, "garbage must be authentic in the first packet and absent in the others");
                nd::check(i < decoys, "the version packet completes the handshake");
                h = x;
            }
            Err(_) => {
                nd::check(!good, "authentic garbage is accepted");
                nd::cover(i == 0, "tampered garbage refused");
                nd::cover(i == 1, "data on a later packet refused");
                return;
            }
        }
    }
}
// C10: every byte of long garbage counts, on both sides.
pub fn c10_long() {
    ghost::set_ideal(true);
    let r = role(nd::bool());
    let gl = [4, 15, 16, 17, 31, 32, 33, 64, 65, 255, 256, 257, 1000, 4094, 4095][nd::pick(0, 14)];
    let g = vec![0x37u8; gl];
    let own = vec![0x38u8; gl];
    let mut p = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    let mut data = p.hello(&g, &[]);
    let h = init(MAGIC, r, ALICE);
    let mut k = vec![0u8; 64 + gl];
    let h = h.send_key(Some(&own), &mut k).unwrap().receive_key(p.key).unwrap();
    let mut v = [0u8; 36];
    let h = h.send_version(&mut v, None).unwrap();
    let mut sent = k.clone();
    sent.extend_from_slice(&v);
    p.read_hello(&sent, &ALICE, &own, &[]);
    const AT: [usize; 24] = [0, 1, 2, 14, 15, 16, 31, 32, 33, 63, 64, 127, 128, 254, 255, 256, 511, 512, 1023, 1024, 2047, 2048, 4000, 4094];
    let at = AT[nd::pick(0, 23)];
    let at = if at < gl { at } else { gl - 1 };
    let x = nd::u8();
    data[64 + at] ^= x;
    let (mut h, n) = match h.receive_garbage(&data[64..]) {
        Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes }) => (handshake, consumed_bytes),
        _ => return nd::check(false, "garbage is found"),
    };
    nd::assume(n == gl + 16);
    let at = 64 + n;
    nd::check(h.decrypt_packet_len([data[at], data[at + 1], data[at + 2]]) == Ok(17), "length of the version packet");
    let mut b = data[at + 3..].to_vec();
    match h.receive_version(&mut b) {
        Ok(VersionResult::Complete { .. }) => {
            nd::check(x == 0, "altered garbage is noticed wherever the alteration is");
            nd::cover(gl == 4095, "longest garbage unaltered");
        }
        _ => {
            nd::check(x != 0, "authentic garbage is accepted");
            nd::cover(gl == 4095, "longest garbage altered");
        }
    }
}
// C10: the garbage sent is authenticated by the first packet sent, decoy or version.
pub fn c10_sent() {
    let r = role(nd::bool());
    let mut p = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    let gl = nd::pick(0, 4);
    let g = nd::vec(gl);
    let g = if gl == 4 { None } else { Some(&g[..]) };
    let k = nd::pick(0, 3);
    let d: Vec<Vec<u8>> = (0..k % 3).map(|_| nd::vec(nd::pick(0, 1))).collect();
    let ds: Vec<&[u8]> = d.iter().map(|d| &d[..]).collect();
    let ds = if k == 3 { None } else { Some(&ds[..]) };
    let h = init(MAGIC, r, ALICE);
    let mut sent = vec![0u8; Handshake::<Initialized>::send_key_len(g)];
    let h = h.send_key(g, &mut sent).unwrap().receive_key(p.key).unwrap();
    let mut v = vec![0u8; Handshake::<ReceivedKey>::send_version_len(ds)];
    h.send_version(&mut v, ds).unwrap();
    // skip to the packets, then open them one by one
    let mut at = 16;
    let n = ds.map_or(0, |d| d.len());
    for i in 0..=n {
        let l = p.recv.length([v[at], v[at + 1], v[at + 2]]);
        let len = l[0] as usize + ((l[1] as usize) << 8) + ((l[2] as usize) << 16);
        nd::check(at + 20 + len <= v.len(), "packet is complete");
        match p.recv.open(&v[at..at + 20 + len], if i == 0 { g.unwrap_or(&[]) } else { &[] }) {
            Some((h, _)) => nd::check((h & 0x80 != 0) == (i < n), "decoys, then version"),
            None => return nd::check(false, "the first packet authenticates the garbage, the others nothing"),
        }
        at += 20 + len;
    }
    nd::check(at == v.len(), "nothing else");
    nd::cover(gl == 3 && n == 2, "garbage and decoys");
}

// C11: decoys of any contents are skipped, contents of the version packet and reserved bits are ignored.
pub fn c11_handshake() {
    let r = role(nd::bool());
    let mut p = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    let h = sent_version(r, ALICE, p.key);
    let decoys = nd::pick(0, 3);
    let mut data = p.send_term.to_vec();
    for _ in 0..decoys {
        let c = nd::vec(nd::pick(0, 2));
        let w = p.send.packet(0x80 | nd::u8(), &c, &[]);
        data.extend_from_slice(&w);
    }
    let c = nd::vec([0, 1, 33][nd::pick(0, 2)]);
    let w = p.send.packet(0x7f & nd::u8(), &c, &[]);
    data.extend_from_slice(&w);
    p.recv.step();
    if let Some((h, n)) = search(h, &data, &[data.len()]) {
        nd::check(n == 16, "no garbage");
        if let Some((mut s, m)) = packets(h, &data[n..], decoys) {
            nd::check(n + m == data.len(), "everything the peer sent is consumed");
            exchange(&mut s, &mut p);
            nd::cover(decoys == 3 && c.len() == 33, "decoys and version contents");
        }
    }
}

// C11: neither do long ones matter, up to what a packet can hold.
pub fn c11_long() {
    let r = role(nd::bool());
    let mut p = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    let h = sent_version(r, ALICE, p.key);
    ghost::set_sparse(100);
    const SIZES: [usize; 12] = [0, 34, 255, 256, 257, 1000, 4095, 4096, 65535, 65536, 4_000_014, 0xff_ffff];
    let mut data = p.send_term.to_vec();
    let size = SIZES[nd::pick(0, 11)];
    let mut c = vec![0x11u8; size];
    if size > 8 {
        c[..4].copy_from_slice(&nd::bytes::<4>());
        c[size - 4..].copy_from_slice(&nd::bytes::<4>());
    }
    let decoy = nd::bool();
    if decoy {
        let w = p.send.packet(0x80 | nd::u8(), &c, &[]);
        data.extend_from_slice(&w);
        c.truncate(300);
    }
    let w = p.send.packet(0x7f & nd::u8(), &c, &[]);
    data.extend_from_slice(&w);
    p.recv.step();
    if let Some((h, n)) = search(h, &data, &[data.len()]) {
        if let Some((mut s, m)) = packets(h, &data[n..], decoy as usize) {
            nd::check(n + m == data.len(), "everything the peer sent is consumed");
            exchange(&mut s, &mut p);
            nd::cover(size == 0xff_ffff && decoy, "largest decoy");
            nd::cover(size == 0xff_ffff && !decoy, "largest version packet");
        }
    }
}

// C15: sizes on the sending side of the handshake.
pub fn c15_handshake() {
    let r = role(nd::bool());
    let p = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    let gl = [0, 1, 2, 4094, 4095, 4096, 4097, 5000, 70000][nd::pick(0, 8)];
    let g = vec![3u8; gl];
    let slack = nd::pick(0, 4);
    nd::check(Handshake::<Initialized>::send_key_len(Some(&g)) == 64 + gl, "size of key and garbage");
    nd::check(Handshake::<Initialized>::send_key_len(None) == 64, "size of the key");
    let mut k = vec![0xD1u8; 64 + gl + slack - 2];
    let h = match init(MAGIC, r, ALICE).send_key(Some(&g), &mut k) {
        Ok(h) => {
            nd::check(gl <= 4095, "too much garbage is refused");
            nd::check(slack >= 2, "a short buffer is refused");
            nd::check(k[64..64 + gl] == g[..], "garbage is sent");
            nd::check(k[64 + gl..].iter().all(|b| *b == 0xD1), "the rest of the buffer is left alone");
            nd::cover(gl == 4095, "longest garbage");
            h
        }
        Err(Error::TooMuchGarbage) => {
            nd::check(gl > 4095, "4095 bytes of garbage are accepted");
            nd::cover(gl == 4096, "too much garbage");
            return;
        }
        Err(Error::BufferTooSmall { required_bytes }) => {
            nd::check(gl <= 4095 && slack < 2 && required_bytes == 64 + gl, "the required size is exact");
            nd::cover(true, "short buffer for the key");
            return;
        }
        Err(_) => return nd::check(false, "no other error"),
    };
    let h = h.receive_key(p.key).unwrap();
    ghost::set_sparse(200);
    let (a, b) = (vec![0u8; [0, 1, 300][nd::pick(0, 2)]], vec![0u8; 7]);
    let ds: [&[u8]; 2] = [&a, &b];
    let k = nd::pick(0, 3);
    let (ds, want) = match k {
        3 => (None, 36),
        k => (Some(&ds[..k]), 36 + ds[..k].iter().map(|d| d.len() + 20).sum::<usize>()),
    };
    nd::check(Handshake::<ReceivedKey>::send_version_len(ds) == want, "size of terminator, decoys and version");
    let slack = nd::pick(0, 4);
    let mut v = vec![0xD1u8; want + slack - 2];
    match h.send_version(&mut v, ds) {
        Ok(_) => {
            nd::check(slack >= 2, "a short buffer is refused");
            nd::check(v[want..].iter().all(|b| *b == 0xD1), "the rest of the buffer is left alone");
            nd::cover(k == 2, "two decoys");
        }
        Err(Error::BufferTooSmall { required_bytes }) => {
            nd::check(slack < 2 && required_bytes == want, "the required size is exact");
            nd::cover(true, "short buffer for the version");
        }
        Err(_) => nd::check(false, "no other error"),
    }
}

// C16: a peer that starts with the network magic speaks the old protocol, and no other peer does.
pub fn c16_v1() {
    let magic: [u8; 4] = nd::bytes();
    let r = role(nd::bool());
    let key: [u8; 64] = nd::bytes();
    let h = init(magic, r, ALICE);
    let mut k = [0u8; 67];
    let g = nd::vec(nd::pick(0, 3));
    let h = h.send_key(if nd::bool() { Some(&g) } else { None }, &mut k).unwrap();
    let same = nd::eq(&key[..4], &magic);
    match h.receive_key(key) {
        Err(Error::V1Protocol) => {
            nd::check(same, "only the magic means the old protocol");
            nd::cover(true, "old protocol");
        }
        Ok(_) => {
            nd::check(!same, "the magic means the old protocol");
            nd::cover(true, "new protocol");
        }
        Err(_) => nd::check(false, "no other error"),
    }
}

// C05: whatever a peer sends during the handshake, the node does not panic.
pub fn c05_handshake() {
    let r = role(nd::bool());
    let h = init(MAGIC, r, ALICE);
    let mut k = [0u8; 64];
    let h = h.send_key(None, &mut k).unwrap();
    let key: [u8; 64] = nd::bytes();
    if nd::bool() {
        // any key
        if let Ok(h) = h.receive_key(key) {
            let mut v = [0u8; 36];
            nd::check(h.send_version(&mut v, None).is_ok(), "version is sent");
            nd::cover(true, "any key");
        }
        return;
    }
    // any data after the key
    let p = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    let h = match h.receive_key(p.key) {
        Ok(h) => h,
        Err(_) => return nd::check(false, "the peer's key is accepted"),
    };
    let mut v = [0u8; 36];
    let h = h.send_version(&mut v, None).unwrap();
    ghost::set_any(true);
    let data = nd::vec(nd::pick(0, 22));
    let mut h = match h.receive_garbage(&data) {
        Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes }) => {
            nd::check(consumed_bytes <= data.len(), "no more is consumed than there is");
            handshake
        }
        _ => return,
    };
    for i in 0..3 {
        match h.decrypt_packet_len(nd::bytes()) {
            Ok(n) => nd::check(n >= 17 && n <= 0xff_ffff + 17, "a decrypted length is in range"),
            Err(_) => return,
        }
        let n = [0, 1, 15, 16, 17, 18, 30][nd::pick(0, 6)];
        let mut b = nd::vec(n);
        match h.receive_version(&mut b) {
            Ok(VersionResult::Decoy(x)) => h = x,
            Ok(VersionResult::Complete { .. }) => {
                nd::cover(i == 2, "completed after two decoys");
                return;
            }
            Err(_) => return,
        }
    }
}

// C21: each handshake's secret is what the random source returns for it, all of it.
pub fn c21_new() {
    for _ in 0..2 {
        let sk = any_secret();
        secp256k1::rand::set_seed(sk);
        match Handshake::<Initialized>::new(MAGIC, role(nd::bool())) {
            Ok(h) => {
                let mut k = [0u8; 64];
                nd::check(h.send_key(None, &mut k).is_ok(), "key is sent");
                nd::check(nd::eq(&k, &ellswift(&sk)), "the secret is what was drawn for this handshake");
            }
            Err(_) => return nd::check(false, "a handshake begins"),
        }
    }
    nd::cover(true, "two handshakes");
}
pub fn c21_fill() {
    use secp256k1::rand::{rngs::StdRng, SeedableRng};
    let (a, b): ([u8; 32], [u8; 32]) = (nd::bytes(), nd::bytes());
    secp256k1::rand::set_seed(a);
    let mut d = [0u8; 32];
    FillBytes::fill_bytes(&mut secp256k1::rand::thread_rng(), &mut d);
    nd::check(nd::eq(&d, &a), "all bytes come from the generator");
    let mut d = [0u8; 32];
    FillBytes::fill_bytes(&mut StdRng::from_seed(b), &mut d);
    nd::check(nd::eq(&d, &b), "all bytes come from the generator");
    nd::cover(true, "filled");
}
