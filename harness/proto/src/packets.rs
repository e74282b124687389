//! Packets of an established session.
use bip324::*;
use common::*;

#[cfg(bip324_verif)]
pub mod hooked {
    use super::*;
    nd::harnesses!(c02_index_out, c02_index_in);
    /// Packet number 224 q + r for any r and q, any keys: three packets from there.
    fn index() -> (u64, RefCipher) {
        let r = nd::pick(0, 223) as u32;
        let [a, b, c, d, e, f] = nd::bytes::<6>();
        let q = u64::from_le_bytes([a, b, c, d, e, f, 0, 0]);
        let mut c = RefCipher::new(nd::bytes(), nd::bytes());
        c.epoch = q;
        c.n = r;
        nd::cover(q > u32::MAX as u64, "more than 2^32 rekeyings");
        nd::cover(q == 19_173_961 && r == 0, "index about 2^32");
        (q * 224 + r as u64, c)
    }
    pub fn c02_index_out() {
        let (n, mut p) = index();
        let mut o = OutboundCipher::verif_at(p.lkey, p.pkey, n);
        for k in 0..3 {
            let contents = nd::vec(k);
            let t = ptype();
            let w = encrypt(k % 2, &mut o, &contents, t, None);
            let e = p.packet(if t == PacketType::Decoy { 0x80 } else { 0 }, &contents, &[]);
            nd::check(nd::eq(&w, &e), "packet on the wire is the specified one, at any index");
        }
    }
    pub fn c02_index_in() {
        let (n, mut p) = index();
        let mut i = InboundCipher::verif_at(p.lkey, p.pkey, n);
        for k in 0..3 {
            let contents = nd::vec(k);
            let e = p.packet(0, &contents, &[]);
            arrives(&mut i, k, &e, &contents, PacketType::Genuine, None);
        }
    }
}
#[cfg(not(bip324_verif))]
pub mod hooked {
    pub const TABLE: &[(&str, fn())] = &[];
}

nd::harnesses!(
    c01_api, c01_long, c01_sizes, c02_stream_initiator, c02_stream_responder, c03_forge, c03_order, c04_encrypt, c04_decrypt, c05_packets,
    c06_reuse, c06_erase, c11_header, c14_vec, c15_packet, c15_oversize,
);

/// One of the ways to decrypt a packet without its length bytes: (type, header and contents).
fn decrypt(how: usize, c: &mut InboundCipher, packet: &[u8], aad: Option<&[u8]>) -> Result<(PacketType, Vec<u8>), Error> {
    match how {
        0 => {
            let mut b = packet.to_vec();
            let (t, m) = c.decrypt_in_place(&mut b, aad)?;
            Ok((t, m.to_vec()))
        }
        1 => {
            // (only sizes decrypt_packet_len can return are meaningful to decryption_buffer_len)
            let n = if packet.len() < 17 { 1 } else { InboundCipher::decryption_buffer_len(packet.len()) };
            // a roomy buffer: only the needed part may be used
            let mut b = vec![0xA5u8; n + 3];
            let t = c.decrypt(packet, &mut b, aad)?;
            nd::check(b[n..] == [0xA5; 3], "decrypt leaves the rest of the buffer alone");
            b.truncate(n);
            Ok((t, b))
        }
        _ => c.decrypt_to_vec(packet, aad),
    }
}
fn encrypt(how: usize, c: &mut OutboundCipher, contents: &[u8], t: PacketType, aad: Option<&[u8]>) -> Vec<u8> {
    if how == 0 {
        return c.encrypt_to_vec(contents, t, aad);
    }
    let mut b = vec![0u8; OutboundCipher::encryption_buffer_len(contents.len())];
    nd::check(c.encrypt(contents, &mut b, t, aad).is_ok(), "encrypting into a buffer of the stated size works");
    b
}
/// The packet arrives and is what was sent.
fn arrives(c: &mut InboundCipher, how: usize, p: &[u8], contents: &[u8], t: PacketType, aad: Option<&[u8]>) {
    let n = c.decrypt_packet_len([p[0], p[1], p[2]]);
    nd::check(n == p.len() - 3, "decrypted length is the rest of the packet");
    match decrypt(how, c, &p[3..], aad) {
        Ok((ty, m)) => {
            nd::check(ty == t, "packet type survives");
            nd::check(m.len() == contents.len() + 1, "content length survives");
            nd::check(nd::eq(&m[1..], contents), "contents survive");
        }
        Err(_) => nd::check(false, "a genuine packet decrypts"),
    }
}

// C01: two packets in arbitrary directions, every combination of sizes, associated data and API.
pub fn c01_api() {
    let (mut a, mut b) = pair();
    for i in 0..2 {
        let len = [5, 0, 1, 2, 17, 64][if i == 0 { nd::pick(0, 1) } else { nd::pick(0, 5) }];
        let contents = nd::vec(len);
        let alen = if i == 0 { nd::pick(2, 3) } else { nd::pick(0, 3) };
        let aadv = nd::vec(if alen == 3 { 0 } else { alen });
        let aad = if alen == 3 { None } else { Some(&aadv[..]) };
        let t = ptype();
        let how = nd::pick(0, 2);
        let (s, r) = if nd::bool() { (&mut a, &mut b) } else { (&mut b, &mut a) };
        let p = encrypt(how, s.outbound(), &contents, t, aad);
        nd::check(p.len() == len + 20, "packet size");
        arrives(r.inbound(), how, &p, &contents, t, aad);
        nd::cover(i == 1 && len == 64 && alen == 2, "two packets, second with long contents and data");
        nd::cover(i == 1 && len == 0 && alen == 3, "empty packet");
    }
}
// C01: across three rekeyings, both directions interleaved, after splitting the session.
pub fn c01_long() {
    let (a, b) = pair();
    let (mut ai, mut ao) = a.into_split();
    let (mut bi, mut bo) = b.into_split();
    for i in 0..680usize {
        let contents = nd::vec([2, 0, 1][i % 3]);
        let d = nd::vec(1);
        let aad = if i % 5 == 0 || i % 224 >= 222 { Some(&d[..]) } else { None };
        let t = ptype();
        let p = encrypt(i % 2, &mut ao, &contents, t, aad);
        arrives(&mut bi, i % 3, &p, &contents, t, aad);
        // the other direction at half the pace
        if i % 2 == 0 {
            let p = encrypt(1, &mut bo, &contents, t, aad);
            arrives(&mut ai, (i + 1) % 3, &p, &contents, t, aad);
        }
        nd::cover(i == 679, "after three rekeyings");
    }
}
// C01: content sizes around every byte of the length field.
pub fn c01_sizes() {
    let (mut a, mut b) = pair();
    ghost::set_sparse(128);
    let len = [63, 64, 65, 255, 256, 257, 4095, 65535, 65536, 65537, 4_000_000, 4_000_013, 0x7f_ffff, 0x80_0000, 0xff_ffff][nd::pick(0, 14)];
    let mut contents = vec![0x5Au8; len];
    let n = contents.len();
    contents[..8].copy_from_slice(&nd::bytes::<8>());
    contents[n - 8..].copy_from_slice(&nd::bytes::<8>());
    let t = ptype();
    let p = encrypt(1, a.outbound(), &contents, t, None);
    // automatic allocation is limited to 4000014 bytes of header and contents
    let how = if len <= 4_000_013 { nd::pick(0, 2) } else { nd::pick(0, 1) };
    arrives(b.inbound(), how, &p, &contents, t, None);
    nd::cover(len == 0xff_ffff, "largest packet");
    nd::cover(how == 2 && len == 4_000_013, "largest automatic allocation");
}

// C02: what goes over the wire is what the specification says, and nothing else is understood.
fn c02_stream(r: Role) {
    let (s, mut p) = session(r);
    let (mut i, mut o) = s.into_split();
    for k in 0..680usize {
        let contents = nd::vec([1, 0, 3][k % 3]);
        let d = nd::vec(1);
        let aad = if k % 7 == 0 || k % 224 >= 222 { Some(&d[..]) } else { None };
        let t = ptype();
        let w = encrypt(k % 2, &mut o, &contents, t, aad);
        let h = if t == PacketType::Decoy { 0x80 } else { 0 };
        let e = p.recv.packet(h, &contents, aad.unwrap_or(&[]));
        nd::check(nd::eq(&w, &e), "packet on the wire is the specified one");
        let header = nd::u8();
        let e = p.send.packet(header, &contents, aad.unwrap_or(&[]));
        let n = i.decrypt_packet_len([e[0], e[1], e[2]]);
        nd::check(n == e.len() - 3, "length of a specified packet");
        match decrypt(k % 3, &mut i, &e[3..], aad) {
            Ok((ty, m)) => {
                nd::check((ty == PacketType::Decoy) == (header & 0x80 != 0), "decoy exactly if the ignore bit is set");
                nd::check(m[0] == header, "header byte is passed on");
                nd::check(nd::eq(&m[1..], &contents), "contents of a specified packet");
            }
            Err(_) => nd::check(false, "a specified packet decrypts"),
        }
        nd::cover(k == 679, "after three rekeyings");
    }
}
pub fn c02_stream_initiator() {
    c02_stream(Role::Initiator)
}
pub fn c02_stream_responder() {
    c02_stream(Role::Responder)
}

// C03: whatever an attacker delivers in place of the next packet is refused, or is that packet.
pub fn c03_forge() {
    ghost::set_ideal(true);
    let (mut a, mut b) = pair();
    // two packets are in flight; the attacker may know everything about them
    let c0 = nd::vec(nd::pick(0, 2));
    let c1 = nd::vec(nd::pick(0, 1));
    let al = nd::pick(0, 2);
    let ad = nd::vec(al);
    let p0 = a.outbound().encrypt_to_vec(&c0, PacketType::Genuine, Some(&ad));
    let p1 = a.outbound().encrypt_to_vec(&c1, PacketType::Genuine, None);
    let turn = nd::pick(0, 1);
    if turn == 1 {
        arrives(b.inbound(), 0, &p0, &c0, PacketType::Genuine, Some(&ad));
    }
    let (next, contents, aad): (&[u8], &[u8], &[u8]) = if turn == 0 { (&p0, &c0, &ad) } else { (&p1, &c1, &[]) };
    let forged = nd::vec(nd::pick(0, 22));
    let fal = nd::pick(0, 2);
    let fad = nd::vec(fal);
    let how = nd::pick(0, 2);
    let mut probe = b.clone();
    match decrypt(how, probe.inbound(), &forged, Some(&fad)) {
        Ok((_, m)) => {
            nd::check(nd::eq(&forged, &next[3..]), "only the next packet is accepted");
            nd::check(nd::eq(&fad, aad), "only with its associated data");
            nd::check(nd::eq(&m[1..], contents), "with its contents");
            nd::cover(true, "the next packet itself is accepted");
        }
        Err(_) => {
            nd::cover(forged.len() == next.len() - 3, "a forgery of the right size is refused");
            // and the refusal cost nothing
            arrives(probe.inbound(), how, next, contents, PacketType::Genuine, Some(aad));
        }
    }
}
// C03: replayed, dropped, reordered and reflected packets, near and across rekeyings.
pub fn c03_order() {
    ghost::set_ideal(true);
    let (mut a, mut b) = pair();
    const N: usize = 452;
    let c = nd::bytes::<2>();
    let mut ps: Vec<Vec<u8>> = Vec::new();
    for _ in 0..N {
        let p = a.outbound().encrypt_to_vec(&c, PacketType::Genuine, None);
        ps.push(p);
    }
    // (the version packet was number 0)
    let back = b.outbound().encrypt_to_vec(&c, PacketType::Genuine, None);
    let others = [0usize, 1, 2, 221, 222, 223, 224, 225, 446, 447, 448, 449, 451];
    let turns = [0usize, 1, 2, 222, 223, 224, 446, 447, 448, 450];
    for j in 0..451 {
        if turns.contains(&j) {
            for o in others {
                if o != j {
                    let r = decrypt(o % 3, b.inbound(), &ps[o][3..], None);
                    nd::check(r.is_err(), "a packet out of its turn is refused");
                }
            }
            nd::check(decrypt(0, b.inbound(), &back[3..], None).is_err(), "a node's own packet is refused");
            nd::check(decrypt(0, b.inbound(), &ps[j][3..], Some(b"x")).is_err(), "other associated data is refused");
        }
        arrives(b.inbound(), j % 3, &ps[j], &c, PacketType::Genuine, None);
    }
    nd::cover(true, "all turns");
}

// C04: failed calls change nothing.
pub fn c04_encrypt() {
    let (mut a, mut b) = pair();
    ghost::set_sparse(4096);
    // also at the packet that triggers the rekeying
    let skip = [0usize, 222, 223][nd::pick(0, 2)];
    for _ in 0..skip {
        let p = a.outbound().encrypt_to_vec(&[], PacketType::Decoy, None);
        arrives(b.inbound(), 0, &p, &[], PacketType::Decoy, None);
    }
    let len = [0, 1, 3, 100][nd::pick(0, 3)];
    let contents = nd::vec(len);
    let t = ptype();
    let room = nd::pick(0, 26);
    let room = if room <= 22 { room } else { len + room - 5 };
    let mut buf = vec![0xC3u8; room];
    let mut twin = a.outbound().clone();
    let want = twin.encrypt_to_vec(&contents, t, None);
    match a.outbound().encrypt(&contents, &mut buf, t, None) {
        Ok(()) => {
            nd::check(room >= len + 20, "no success in a short buffer");
            nd::check(nd::eq(&buf[..len + 20], &want), "same packet whatever the buffer size");
            nd::check(buf[len + 20..].iter().all(|x| *x == 0xC3), "the rest of the buffer is left alone");
            nd::cover(room > len + 20, "roomy buffer");
        }
        Err(Error::BufferTooSmall { required_bytes }) => {
            nd::check(room < len + 20, "a sufficient buffer is accepted");
            nd::check(required_bytes == len + 20, "the required size is exact");
            nd::check(buf.iter().all(|x| *x == 0xC3), "nothing is written on failure");
            let p = encrypt(1, a.outbound(), &contents, t, None);
            nd::check(nd::eq(&p, &want), "the retry gives the packet the first try would have given");
            nd::cover(true, "short buffer");
        }
        Err(_) => nd::check(false, "no other error"),
    }
    arrives(b.inbound(), 2, &want, &contents, t, None);
}
pub fn c04_decrypt() {
    ghost::set_ideal(true);
    let (mut a, mut b) = pair();
    let skip = [0usize, 222, 223][nd::pick(0, 2)];
    for _ in 0..skip {
        let p = a.outbound().encrypt_to_vec(&[], PacketType::Decoy, None);
        arrives(b.inbound(), 0, &p, &[], PacketType::Decoy, None);
    }
    let len = nd::pick(0, 2);
    let contents = nd::vec(len);
    let t = ptype();
    let p = a.outbound().encrypt_to_vec(&contents, t, None);
    let n = b.inbound().decrypt_packet_len([p[0], p[1], p[2]]);
    nd::check(n == len + 17, "length");
    // up to two failing calls
    for _ in 0..2 {
        match nd::pick(0, 4) {
            0 => break,
            1 => {
                let room = nd::pick(0, len);
                let mut out = vec![0xC3u8; room];
                match b.inbound().decrypt(&p[3..], &mut out, None) {
                    Err(Error::BufferTooSmall { required_bytes }) => {
                        nd::check(required_bytes == len + 1, "the required size is exact")
                    }
                    _ => nd::check(false, "a short buffer is reported"),
                }
                nd::cover(true, "short buffer");
            }
            2 => {
                let short = nd::vec([0, 1, 15, 16][nd::pick(0, 3)]);
                match decrypt(nd::pick(0, 2), b.inbound(), &short, None) {
                    Err(Error::CiphertextTooSmall) => {}
                    _ => nd::check(false, "an impossibly short ciphertext is reported"),
                }
                nd::cover(true, "short ciphertext");
            }
            3 => {
                let bad = nd::vec(n);
                nd::assume(!nd::eq(&bad, &p[3..]));
                match decrypt(nd::pick(0, 2), b.inbound(), &bad, None) {
                    Err(Error::Decryption(_)) => {}
                    _ => nd::check(false, "a changed packet is reported"),
                }
                nd::cover(true, "changed packet");
            }
            _ => match decrypt(nd::pick(0, 2), b.inbound(), &p[3..], Some(&nd::bytes::<1>())) {
                Err(Error::Decryption(_)) => {}
                _ => nd::check(false, "other associated data is reported"),
            },
        }
    }
    let how = nd::pick(0, 2);
    match decrypt(how, b.inbound(), &p[3..], None) {
        Ok((ty, m)) => {
            nd::check(ty == t && nd::eq(&m[1..], &contents), "the packet still decrypts after failed calls");
        }
        Err(_) => nd::check(false, "the packet still decrypts after failed calls"),
    }
    // so does the next one, in either direction
    let p = a.outbound().encrypt_to_vec(&contents, t, None);
    arrives(b.inbound(), how, &p, &contents, t, None);
    let p = b.outbound().encrypt_to_vec(&contents, t, None);
    arrives(a.inbound(), how, &p, &contents, t, None);
}

// C05: no input of any size makes the packet API panic.
pub fn c05_packets() {
    let (mut a, _) = pair();
    ghost::set_any(true);
    let n = nd::pick(0, 40);
    let data = nd::vec(n);
    let al = nd::pick(0, 3);
    let aadv = nd::vec(al);
    let aad = if al == 3 { None } else { Some(&aadv[..]) };
    let l = a.inbound().decrypt_packet_len(nd::bytes());
    nd::check(l >= 17 && l <= 0xff_ffff + 17, "a decrypted length is in range");
    nd::check(InboundCipher::decryption_buffer_len(l) == l - 16, "buffer size for a decrypted length");
    match nd::pick(0, 3) {
        0 => {
            let mut d = data.clone();
            let _ = a.inbound().decrypt_in_place(&mut d, aad);
        }
        1 => {
            let mut out = vec![0u8; nd::pick(0, 26)];
            let _ = a.inbound().decrypt(&data, &mut out, aad);
        }
        2 => {
            let _ = a.inbound().decrypt_to_vec(&data, aad);
        }
        _ => {
            let mut out = vec![0u8; nd::pick(0, 62)];
            let _ = a.outbound().encrypt(&data, &mut out, ptype(), aad);
        }
    }
    let _ = PacketType::from_byte(&nd::u8());
    nd::cover(n == 40, "longest input");
    nd::cover(n == 0, "no input");
}

// C06: neither direction uses a key and nonce (or a keystream position) twice, handshake included.
pub fn c06_reuse() {
    let initiator = nd::bool();
    let r = role(initiator);
    let p = RefPeer::new(&MAGIC, r, &ALICE, &BOB);
    ghost::record(true);
    // handshake with decoys
    let h = init(MAGIC, r, ALICE);
    let mut k = [0u8; 66];
    let h = h.send_key(Some(&[1, 2]), &mut k).unwrap();
    let h = h.receive_key(p.key).unwrap();
    let decoys: [&[u8]; 2] = [&[7; 3], &[]];
    let mut v = vec![0u8; Handshake::<ReceivedKey>::send_version_len(Some(&decoys))];
    let h = h.send_version(&mut v, Some(&decoys)).unwrap();
    ghost::record(false);
    let mut p = p;
    let mut stream = p.send_term.to_vec();
    let w = p.send.packet(0, &[], &[]);
    stream.extend_from_slice(&w);
    let mut s = finish(h, &stream);
    let mut keys = std::collections::BTreeSet::new();
    for i in 0..680usize {
        ghost::record(true);
        if i % 3 == 0 {
            // failed attempts count as well
            let _ = s.outbound().encrypt(&[1, 2], &mut [0u8; 21], PacketType::Genuine, None);
        }
        let _ = s.outbound().encrypt_to_vec(&nd::vec(i % 2), ptype(), None);
        ghost::record(false);
        // traffic in the other direction must not matter
        let w = p.send.packet(0, &[], &[]);
        s.inbound().decrypt_packet_len([w[0], w[1], w[2]]);
        let _ = s.inbound().decrypt_to_vec(&w[3..], None);
    }
    let mut seen = std::collections::BTreeSet::new();
    for u in ghost::uses() {
        nd::check(seen.insert(*u), "no key, nonce and position is used twice");
        keys.insert(u.1);
    }
    // 683 packets: 3 rekeyings of both keys
    nd::check(keys.len() >= 8, "keys change every 224 packets");
    // no key protects more than 224 packets
    for k in &keys {
        let n = ghost::uses().iter().filter(|u| u.0 == 1 && u.1 == *k && u.2[..4] != [0xff; 4]).count();
        nd::check(n <= 224, "no key protects more than 224 packets");
        let n = ghost::uses().iter().filter(|u| u.0 == 2 && u.1 == *k).count();
        nd::check(n <= 224 * 3 + 32, "no length key is used for more than 224 lengths");
    }
    // and none is shared between directions
    let other = p.send.clone();
    nd::check(!keys.contains(&other.lkey) && !keys.contains(&other.pkey), "directions do not share keys");
    nd::cover(ghost::uses().len() > 2000, "recorded");
}
// C06: after a rekeying the session does not hold the old keys any more.
pub fn c06_erase() {
    fn holds<T>(t: &T, k: &[u8; 32]) -> bool {
        let p = t as *const T as *const u8;
        let n = std::mem::size_of::<T>();
        let mut found = false;
        for i in 0..=n - 32 {
            let mut same = true;
            for (j, b) in k.iter().enumerate() {
                if unsafe { std::ptr::read_volatile(p.add(i + j)) } != *b {
                    same = false;
                    break;
                }
            }
            found |= same;
        }
        found
    }
    let (mut s, mut p) = session(role(nd::bool()));
    let mut old: Vec<[u8; 32]> = vec![p.send.lkey, p.send.pkey, p.recv.lkey, p.recv.pkey];
    nd::check(old.iter().all(|k| holds(&s, k)), "HARNESS: keys can be found in a fresh session");
    for epoch in 1..=2u64 {
        while p.send.epoch < epoch {
            let w = p.send.packet(0, &[], &[]);
            s.inbound().decrypt_packet_len([w[0], w[1], w[2]]);
            nd::check(s.inbound().decrypt_to_vec(&w[3..], None).is_ok(), "a specified packet decrypts");
            let _ = s.outbound().encrypt_to_vec(&[], PacketType::Genuine, None);
            p.recv.step();
        }
        for k in &old {
            nd::check(!holds(&s, k), "a retired key is not in the session any more");
        }
        old.extend_from_slice(&[p.send.lkey, p.send.pkey, p.recv.lkey, p.recv.pkey]);
    }
    nd::cover(true, "two rekeyings");
}

// C11: the ignore bit alone makes a decoy.
pub fn c11_header() {
    let h = nd::u8();
    let t = PacketType::from_byte(&h);
    nd::check((t == PacketType::Decoy) == (h & 0x80 != 0), "decoy exactly if the top bit is set");
    nd::check(PacketType::Decoy.to_byte() == 0x80 && PacketType::Genuine.to_byte() == 0, "header bytes sent");
    nd::check(PacketType::from_byte(&t.to_byte()) == t, "packet type survives its header byte");
    // and through a session
    let (mut s, mut p) = session(role(nd::bool()));
    let e = p.send.packet(h, b"abc", &[]);
    s.inbound().decrypt_packet_len([e[0], e[1], e[2]]);
    match decrypt(nd::pick(0, 2), s.inbound(), &e[3..], None) {
        Ok((t, m)) => {
            nd::check((t == PacketType::Decoy) == (h & 0x80 != 0), "decoy exactly if the ignore bit is set");
            nd::check(nd::eq(&m, &[h, b'a', b'b', b'c']), "header and contents are passed on");
        }
        Err(_) => nd::check(false, "a specified packet decrypts"),
    }
    nd::cover(h == 0x81, "reserved bit with ignore bit");
    nd::cover(h == 0x7f, "reserved bits without ignore bit");
}

// C15: sizes on the sending side are exact.
pub fn c15_packet() {
    let n = nd::u64() as usize;
    nd::assume(n <= 1 << 40);
    nd::check(OutboundCipher::encryption_buffer_len(n) == n + 20, "encryption buffer size");
    nd::check(InboundCipher::decryption_buffer_len(n + 17) == n + 1, "decryption buffer size");
    let (mut a, _) = pair();
    let len = nd::pick(0, 20);
    let contents = nd::vec(len);
    let t = ptype();
    let mut twin = a.outbound().clone();
    let v = a.outbound().encrypt_to_vec(&contents, t, None);
    nd::check(v.len() == len + 20, "an allocated packet has the exact size");
    let mut exact = vec![0u8; len + 20];
    nd::check(twin.encrypt(&contents, &mut exact, t, None).is_ok(), "the exact size suffices");
    nd::check(nd::eq(&exact, &v), "both give the same packet");
    // receiving: exactly the announced size is used
    let (mut a, mut b) = pair();
    let v = a.outbound().encrypt_to_vec(&contents, t, None);
    let n = InboundCipher::decryption_buffer_len(b.inbound().decrypt_packet_len([v[0], v[1], v[2]]));
    nd::check(n == len + 1, "decryption buffer size of a packet");
    let room = nd::pick(0, 4);
    let mut out = vec![0xC3u8; n + room - 2 * (n + room > 1) as usize];
    let k = out.len();
    match b.inbound().decrypt(&v[3..], &mut out, None) {
        Ok(_) => {
            nd::check(k >= n, "a short buffer is refused");
            nd::check(out[n..].iter().all(|x| *x == 0xC3), "nothing beyond the announced size is touched");
            nd::cover(k == n + 2, "roomy buffer");
        }
        Err(Error::BufferTooSmall { required_bytes }) => {
            nd::check(k < n && required_bytes == n, "the required size is exact");
            nd::cover(true, "short buffer");
        }
        Err(_) => nd::check(false, "no other error"),
    }
}
// C14: decrypting into a buffer of its own allocates within the documented limit.
pub fn c14_vec() {
    let (mut a, mut b) = pair();
    ghost::set_sparse(300);
    let len = [0, 3_999_997, 3_999_998, 4_000_012, 4_000_013, 4_000_014, 4_000_015, 4_000_029, 4_000_030, 4_000_031, 8_000_000, 0xff_ffff][nd::pick(0, 11)];
    let contents = vec![3u8; len];
    let v = encrypt(1, a.outbound(), &contents, PacketType::Genuine, None);
    b.inbound().decrypt_packet_len([v[0], v[1], v[2]]);
    nd::limit(4_000_030);
    let got = b.inbound().decrypt_to_vec(&v[3..], None);
    nd::limit(u64::MAX);
    match got {
        Ok((_, m)) => {
            nd::check(len <= 4_000_013, "a packet over the limit is refused");
            nd::check(m.len() == len + 1 && m[1..] == contents[..], "a packet within the limit arrives");
            nd::cover(len == 4_000_013, "largest");
        }
        Err(Error::PacketTooBig) => {
            nd::check(len > 4_000_013, "a packet within the limit is accepted");
            nd::cover(len == 4_000_014, "smallest refused");
            // the packet is not lost
            match decrypt(0, b.inbound(), &v[3..], None) {
                Ok((_, m)) => nd::check(m[1..] == contents[..], "a refused packet can still be decrypted in place"),
                Err(_) => nd::check(false, "a refused packet can still be decrypted in place"),
            }
        }
        Err(_) => nd::check(false, "no other error"),
    }
}
// C15: contents that do not fit the length field are refused, not cut.
pub fn c15_oversize() {
    let (mut a, mut b) = pair();
    ghost::set_sparse(4096);
    let over = [0usize, 1, 5, 0x1_0000][nd::pick(0, 3)];
    let contents = vec![0u8; (1 << 24) + over];
    let mut buf = vec![0u8; contents.len() + 20];
    nd::check(a.outbound().encrypt(&contents, &mut buf, PacketType::Genuine, None).is_err(), "oversized contents are refused");
    // the session goes on
    let p = a.outbound().encrypt_to_vec(b"hi", PacketType::Genuine, None);
    arrives(b.inbound(), 0, &p, b"hi", PacketType::Genuine, None);
    nd::cover(true, "refused");
}
