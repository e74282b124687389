//! What every harness shares: an independent model of the remote peer, written from BIP-324, and helpers
//! that drive the public API of the crate under test.
pub mod net;
pub mod peer;
use bip324::*;
pub use chacha20_poly1305::ghost;
use chacha20_poly1305::{Key, Nonce};
use secp256k1::ellswift::{ElligatorSwift, ElligatorSwiftParty};
use secp256k1::{PublicKey, Secp256k1, SecretKey};

pub const MAGIC: [u8; 4] = [0xF9, 0xBE, 0xB4, 0xD9];
pub const ALICE: [u8; 32] = [0x11; 32];
pub const BOB: [u8; 32] = [0x22; 32];

pub struct Fixed(pub [u8; 32]);
impl FillBytes for Fixed {
    fn fill_bytes(&mut self, d: &mut [u8; 32]) {
        *d = self.0;
    }
}

// ---- BIP-324, the reference ----------------------------------------------------------------------
/// One direction of a session, as the specification defines it, at any packet index.
#[derive(Clone)]
pub struct RefCipher {
    pub lkey: [u8; 32],
    pub pkey: [u8; 32],
    /// rekeyings performed and packets since the last one
    pub epoch: u64,
    pub n: u32,
}
fn stream(k: &[u8; 32], n: [u8; 12], pos: usize, out: &mut [u8]) {
    let mut i = 0;
    while i < out.len() {
        let p = pos + i;
        let b = ghost::keystream(&Key::new(*k), &Nonce::new(n), (p / 64) as u32);
        let mut j = p % 64;
        while j < 64 && i < out.len() {
            out[i] ^= b[j];
            i += 1;
            j += 1;
        }
    }
}
/// The packet body's stream: block 1 onwards (long bodies as `ghost::set_sparse` has it).
fn body_stream(k: &[u8; 32], n: [u8; 12], b: &mut [u8]) {
    if ghost::sparse(b.len()) {
        ghost::apply_sparse(&ghost::keystream(&Key::new(*k), &Nonce::new(n), 1), b);
    } else {
        stream(k, n, 64, b);
    }
}
fn nonce(lo: [u8; 4], epoch: u64) -> [u8; 12] {
    let e = epoch.to_le_bytes();
    [lo[0], lo[1], lo[2], lo[3], e[0], e[1], e[2], e[3], e[4], e[5], e[6], e[7]]
}
impl RefCipher {
    pub fn new(lkey: [u8; 32], pkey: [u8; 32]) -> Self {
        RefCipher { lkey, pkey, epoch: 0, n: 0 }
    }
    /// The three length bytes of the next packet, encrypted or decrypted.
    pub fn length(&self, len: [u8; 3]) -> [u8; 3] {
        let mut l = len;
        stream(&self.lkey, nonce([0; 4], self.epoch), 3 * self.n as usize, &mut l);
        l
    }
    /// The packet with this header and these contents, without moving on to the next one.
    pub fn seal(&self, header: u8, contents: &[u8], aad: &[u8]) -> Vec<u8> {
        let l = (contents.len() as u32).to_le_bytes();
        let mut p = self.length([l[0], l[1], l[2]]).to_vec();
        let mut body = vec![0u8; 1 + contents.len()];
        body[0] = header;
        body[1..].copy_from_slice(contents);
        let n = nonce(self.n.to_le_bytes(), self.epoch);
        body_stream(&self.pkey, n, &mut body);
        let tag = ghost::seal(&Key::new(self.pkey), &Nonce::new(n), aad, &body);
        p.extend_from_slice(&body);
        p.extend_from_slice(&tag);
        p
    }
    pub fn step(&mut self) {
        self.n += 1;
        if self.n == 224 {
            let mut k = [0u8; 32];
            stream(&self.lkey, nonce([0; 4], self.epoch), 3 * 224, &mut k);
            self.lkey = k;
            let mut k = [0u8; 32];
            stream(&self.pkey, nonce([0xff; 4], self.epoch), 64, &mut k);
            self.pkey = k;
            self.epoch += 1;
            self.n = 0;
        }
    }
    pub fn packet(&mut self, header: u8, contents: &[u8], aad: &[u8]) -> Vec<u8> {
        let p = self.seal(header, contents, aad);
        self.step();
        p
    }
    /// Contents of a packet known to be well formed: (header, contents).
    pub fn open(&mut self, packet: &[u8], aad: &[u8]) -> Option<(u8, Vec<u8>)> {
        let mut body = packet[3..packet.len() - 16].to_vec();
        let n = nonce(self.n.to_le_bytes(), self.epoch);
        let tag = ghost::tag(&Key::new(self.pkey), &Nonce::new(n), aad, &body);
        if !nd::eq(&tag, &packet[packet.len() - 16..]) {
            return None;
        }
        body_stream(&self.pkey, n, &mut body);
        self.step();
        let h = body.remove(0);
        Some((h, body))
    }
}
#[derive(Clone)]
pub struct RefKeys {
    pub id: [u8; 32],
    pub init: RefCipher,
    pub resp: RefCipher,
    pub init_term: [u8; 16],
    pub resp_term: [u8; 16],
}
pub fn ellswift(sk: &[u8; 32]) -> [u8; 64] {
    let s = SecretKey::from_slice(sk).unwrap();
    ElligatorSwift::from_pubkey(PublicKey::from_secret_key(&Secp256k1::signing_only(), &s)).to_array()
}
/// Key schedule of BIP-324 for the holder of `sk`.
pub fn ref_keys(magic: &[u8; 4], init: &[u8; 64], resp: &[u8; 64], sk: &[u8; 32], initiating: bool) -> RefKeys {
    let party = if initiating { ElligatorSwiftParty::A } else { ElligatorSwiftParty::B };
    let ecdh = ElligatorSwift::shared_secret(
        ElligatorSwift::from_array(*init),
        ElligatorSwift::from_array(*resp),
        SecretKey::from_slice(sk).unwrap(),
        party,
        None,
    );
    let mut salt = *b"bitcoin_v2_shared_secret....";
    salt[24..].copy_from_slice(magic);
    let hk = bitcoin_hashes::Hkdf::<bitcoin_hashes::sha256::Hash>::new(&salt, ecdh.as_secret_bytes());
    let e = |info: &str| {
        let mut o = [0u8; 32];
        hk.expand(info.as_bytes(), &mut o).unwrap();
        o
    };
    let g = e("garbage_terminators");
    let half = |o: usize| {
        let mut t = [0u8; 16];
        t.copy_from_slice(&g[o..o + 16]);
        t
    };
    RefKeys {
        id: e("session_id"),
        init: RefCipher::new(e("initiator_L"), e("initiator_P")),
        resp: RefCipher::new(e("responder_L"), e("responder_P")),
        init_term: half(0),
        resp_term: half(16),
    }
}
/// A remote peer that follows the specification, for a local node whose key is known.
#[derive(Clone)]
pub struct RefPeer {
    pub key: [u8; 64],
    pub id: [u8; 32],
    pub send: RefCipher,
    pub recv: RefCipher,
    pub send_term: [u8; 16],
    pub recv_term: [u8; 16],
}
impl RefPeer {
    /// `role` is the role of the local node under test.
    pub fn new(magic: &[u8; 4], role: Role, local_sk: &[u8; 32], peer_sk: &[u8; 32]) -> RefPeer {
        let (l, p) = (ellswift(local_sk), ellswift(peer_sk));
        match role {
            Role::Initiator => {
                let k = ref_keys(magic, &l, &p, peer_sk, false);
                RefPeer { key: p, id: k.id, send: k.resp, recv: k.init, send_term: k.resp_term, recv_term: k.init_term }
            }
            Role::Responder => {
                let k = ref_keys(magic, &p, &l, peer_sk, true);
                RefPeer { key: p, id: k.id, send: k.init, recv: k.resp, send_term: k.init_term, recv_term: k.resp_term }
            }
        }
    }
    /// Everything the peer sends up to its version packet.
    pub fn hello(&mut self, garbage: &[u8], decoys: &[&[u8]]) -> Vec<u8> {
        let mut s = self.key.to_vec();
        s.extend_from_slice(garbage);
        s.extend_from_slice(&self.send_term);
        let mut aad = garbage;
        for d in decoys {
            let p = self.send.packet(0x80, d, aad);
            s.extend_from_slice(&p);
            aad = &[];
        }
        let p = self.send.packet(0, &[], aad);
        s.extend_from_slice(&p);
        s
    }
    /// Reads what the local node sent up to its version packet: (garbage, decoys, bytes consumed).
    /// Panics (through `nd::check`) when the node does not follow the specification.
    pub fn read_hello(&mut self, sent: &[u8], local_sk: &[u8; 32], garbage: &[u8], decoys: &[&[u8]]) -> usize {
        let want = 64 + garbage.len() + 16;
        nd::check(sent.len() >= want, "node sends key, garbage and terminator");
        nd::check(nd::eq(&sent[..64], &ellswift(local_sk)), "node sends its key first");
        nd::check(nd::eq(&sent[64..64 + garbage.len()], garbage), "node sends its garbage after the key");
        nd::check(nd::eq(&sent[64 + garbage.len()..want], &self.recv_term), "node sends its garbage terminator");
        let mut at = want;
        let mut aad = garbage;
        let mut i = 0;
        loop {
            let last = i == decoys.len();
            let body: &[u8] = if last { &[] } else { decoys[i] };
            let p = self.recv.packet(if last { 0 } else { 0x80 }, body, aad);
            nd::check(sent.len() >= at + p.len(), "node sends every decoy and its version packet");
            nd::check(nd::eq(&sent[at..at + p.len()], &p), "node's decoy or version packet is as specified");
            at += p.len();
            aad = &[];
            i += 1;
            if last {
                return at;
            }
        }
    }
}

// ---- driving the crate under test ----------------------------------------------------------------
pub fn init(magic: [u8; 4], role: Role, sk: [u8; 32]) -> Handshake<Initialized> {
    Handshake::<Initialized>::new_with_rng(magic, role, &mut Fixed(sk), &Secp256k1::signing_only()).unwrap()
}
/// A node that has sent its version packet to the peer with key `their_key`.
pub fn sent_version(role: Role, sk: [u8; 32], their_key: [u8; 64]) -> Handshake<SentVersion> {
    let h = init(MAGIC, role, sk);
    let mut k = [0u8; 64];
    let h = h.send_key(None, &mut k).unwrap();
    let h = h.receive_key(their_key).unwrap();
    let mut v = [0u8; 36];
    h.send_version(&mut v, None).unwrap()
}
/// A completed session of the node under test with a reference peer.
pub fn session(role: Role) -> (CipherSession, RefPeer) {
    let mut p = RefPeer::new(&MAGIC, role, &ALICE, &BOB);
    let h = sent_version(role, ALICE, p.key);
    let mut v = p.send_term.to_vec();
    let pk = p.send.packet(0, &[], &[]);
    v.extend_from_slice(&pk);
    p.recv.step();
    (finish(h, &v), p)
}
pub fn finish(h: Handshake<SentVersion>, v: &[u8]) -> CipherSession {
    let mut h = match h.receive_garbage(v) {
        Ok(GarbageResult::FoundGarbage { handshake, consumed_bytes: 16 }) => handshake,
        _ => panic!("no garbage"),
    };
    let l = h.decrypt_packet_len([v[16], v[17], v[18]]).unwrap();
    assert!(l == 17);
    let mut b = v[19..36].to_vec();
    match h.receive_version(&mut b) {
        Ok(VersionResult::Complete { cipher }) => cipher,
        _ => panic!("not complete"),
    }
}
/// Two nodes under test that completed a handshake with each other: (initiator, responder).
pub fn pair() -> (CipherSession, CipherSession) {
    let a = init(MAGIC, Role::Initiator, ALICE);
    let b = init(MAGIC, Role::Responder, BOB);
    let mut ka = [0u8; 64];
    let mut kb = [0u8; 64];
    let a = a.send_key(None, &mut ka).unwrap();
    let b = b.send_key(None, &mut kb).unwrap();
    let a = a.receive_key(kb).unwrap();
    let b = b.receive_key(ka).unwrap();
    let mut va = [0u8; 36];
    let mut vb = [0u8; 36];
    let a = a.send_version(&mut va, None).unwrap();
    let b = b.send_version(&mut vb, None).unwrap();
    (finish(a, &vb), finish(b, &va))
}
pub fn role(initiator: bool) -> Role {
    if initiator {
        Role::Initiator
    } else {
        Role::Responder
    }
}
/// Symbolic packet type that does not fork.
pub fn ptype() -> PacketType {
    let v = nd::u8();
    nd::assume(v <= 1);
    if v == 1 {
        PacketType::Decoy
    } else {
        PacketType::Genuine
    }
}
