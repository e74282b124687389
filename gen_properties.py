#!/usr/bin/env python3
"""Writes properties.jsonl."""
import json, os
P = "protocol/src/"
rows = []


def p(id, title, statement, over, text, why, files, mech, observe, hook=None):
    rows.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                     anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=hook)))


p("C01", "Packets round-trip in order, through every rekeying, by every API variant",
  "After a handshake, whatever contents and packet type either side encrypts, the other side decrypts in order to exactly the same contents and type, in both directions independently, "
  "including across the automatic rekeyings and whichever of the allocating and in-place calls either side uses. The length decoded from the three length bytes is the length of the rest of the packet.",
  ["inputs", "histories"], "every contents, packet type, length, API variant and message index",
  "Tests send a few fixed messages and one loop across a rekeying with fixed contents; the state of four counters and keys depends on the whole history, and every length and content must work.",
  [P + "lib.rs", P + "fschacha20poly1305.rs"],
  [("OutboundCipher::encrypt / encrypt_to_vec", P + "lib.rs"), ("InboundCipher::decrypt_packet_len / decrypt / decrypt_to_vec", P + "lib.rs"), ("FSChaCha20::crypt, FSChaCha20Poly1305::{encrypt,decrypt,rekey}", P + "fschacha20poly1305.rs")],
  ["OutboundCipher", "InboundCipher", "CipherSession"])
p("C02", "Bytes on the wire are those BIP-324 specifies, at every message index",
  "Every packet consists of exactly the bytes BIP-324 prescribes for its header, contents, associated data, session keys and message index: encrypted length, encrypted header and contents, and tag, "
  "with the length cipher's continuous keystream and both ciphers' forward-secure rekeying every 224 messages. This holds at every message index, however long the session.",
  ["inputs", "histories"], "every message index, key, contents, header, associated data",
  "The reference vectors cover a handful of indices with fixed keys; two implementations that share a mistake still round-trip, so only comparison with the specification at every index decides it.",
  [P + "lib.rs", P + "fschacha20poly1305.rs"],
  [("nonce construction and rekey interval", P + "fschacha20poly1305.rs"), ("packet layout", P + "lib.rs")],
  ["bytes returned by encrypt", "bytes accepted by decrypt"],
  "constructor for a cipher at an arbitrary message index (cfg bip324_verif)")
p("C03", "Altered, replayed, reordered, dropped or reflected packets are never accepted",
  "A receiver accepts a packet only if it is, byte for byte, the next one its peer sent in this session and direction with the same associated data. Anything else - changed bytes, a packet of another "
  "position, direction or session, other associated data - is reported as an authentication failure and yields no contents.",
  ["inputs", "histories"], "every modification of a packet and every order of presentation",
  "Tests flip one or two chosen bytes; every byte position, combination of changes and every pair of positions must be refused.",
  [P + "lib.rs", P + "fschacha20poly1305.rs"],
  [("tag check before decryption", P + "fschacha20poly1305.rs"), ("per-direction keys", P + "lib.rs")],
  ["results of decrypt and decrypt_to_vec"])
p("C04", "A failing cipher call changes nothing and reports exactly what it needs",
  "An encryption or decryption that is refused (buffer too small, ciphertext too short, contents too long) leaves the session where it was, so the next proper call works as if the refused one had not happened. "
  "A buffer-too-small error names exactly the size with which the same call succeeds.",
  ["inputs", "histories"], "every buffer length, packet length and position of the failing call in a history",
  "Tests check that an error is returned, not that the session state survives it, and only for one length each.",
  [P + "lib.rs"], [("size checks before cipher use", P + "lib.rs")], ["Error::BufferTooSmall", "results of later calls"])
p("C05", "No input from the peer can make the node panic or misbehave arithmetically",
  "Whatever bytes a peer sends as key, garbage, terminator, decoys, version packet or session packets - including a peer that knows the session keys - and however short, every call returns a value or an error: "
  "no panic, overflow, out-of-bounds access or endless loop.",
  ["inputs"], "every byte string a peer can send at every stage, and every buffer length a caller can pass",
  "Tests feed well-formed or lightly damaged input; panics hide at specific lengths and in states that only hostile peers create.",
  [P + "lib.rs", P + "handshake.rs", P + "io.rs", P + "futures.rs"],
  [("length checks", P + "lib.rs"), ("receive_garbage, receive_version", P + "handshake.rs"), ("stream reading", P + "io.rs")],
  ["every public call that takes bytes from the peer"])
p("C06", "No key and nonce is ever used twice; superseded keys are gone",
  "No keystream position of a session is used for two different plaintexts and no nonce is used twice under a key, in either direction, whatever is sent. After a rekeying neither the session's "
  "ciphers nor anything reachable from them contains the previous keys.",
  ["histories", "inputs"], "every history of messages in both directions",
  "Reuse is invisible to round-trip tests: both sides would reuse alike.",
  [P + "fschacha20poly1305.rs", P + "lib.rs"], [("rekey, nonce", P + "fschacha20poly1305.rs"), ("SessionKeyMaterial", P + "lib.rs")], ["ciphertexts", "cipher memory"])
p("C07", "Both sides derive the specified keys, and only the right peer derives them",
  "From the two public keys, the own secret and the network magic, the node derives exactly the session id, the four keys and the two garbage terminators BIP-324 prescribes, with the initiator's key always first. "
  "Initiator and responder agree on all of them with send and receive swapped, and any difference in a public key, the secret or the magic changes them.",
  ["inputs", "configurations"], "every secret, peer key, magic and role",
  "Vectors fix a few keys and the magic of mainnet; role or salt mistakes can cancel out between two instances of the same code.",
  [P + "lib.rs", P + "handshake.rs"], [("SessionKeyMaterial::from_ecdh", P + "lib.rs"), ("receive_key", P + "handshake.rs")], ["CipherSession::id", "terminator and packets on the wire"])
p("C08", "The handshake completes with every conforming peer, and means the same to both",
  "Whatever garbage (up to 4095 bytes), decoy packets and version contents a conforming peer sends, in whatever pieces they arrive, the handshake completes, consumes exactly the peer's handshake bytes, "
  "and leaves both sides' ciphers in step; what the node itself sends is accepted by the peer as specified.",
  ["inputs", "configurations"], "every garbage length and contents, number and size of decoys, chunking, role",
  "Tests use one or two garbage lengths and fixed decoys in one piece.",
  [P + "handshake.rs"], [("receive_garbage, receive_version", P + "handshake.rs")], ["Handshake state transitions", "CipherSession"])
p("C09", "The garbage terminator is found exactly where it first ends, or refused",
  "The search reports the first position at which the terminator occurs with at most 4095 bytes before it, consuming exactly those bytes and the terminator; it asks for more while the terminator may still come, "
  "and fails once it can no longer come. The result does not depend on how the bytes are split over calls.",
  ["inputs"], "every byte string and every split of it",
  "Boundary positions, partial matches straddling chunks and terminators just beyond the limit are rare in random garbage; tests use a few positions.",
  [P + "handshake.rs"], [("split_garbage", P + "handshake.rs")], ["GarbageResult", "Error::NoGarbageTerminator"])
p("C10", "The garbage is authenticated by the first packet after it, and only by that one",
  "The first packet in either direction, decoy or version, carries the sender's garbage as associated data and every later packet carries none. Garbage altered on the way makes the handshake fail.",
  ["inputs", "histories"], "every garbage, alteration and number of decoys",
  "Tests do not alter garbage before decoys nor look at which packet binds it.",
  [P + "handshake.rs"], [("send_version", P + "handshake.rs"), ("receive_version", P + "handshake.rs")], ["Handshake"])
p("C11", "Decoys, reserved header bits and version contents never change the meaning",
  "A packet is a decoy exactly if the top bit of its header is set; the other header bits are ignored on receipt and zero when sent. In the handshake decoys are skipped and version contents are ignored whatever they are.",
  ["inputs"], "every header byte and contents",
  "Two of 256 header bytes are tested.",
  [P + "lib.rs", P + "handshake.rs"], [("PacketType::from_byte", P + "lib.rs"), ("receive_version", P + "handshake.rs")], ["PacketType", "VersionResult"])
p("C12", "Blocking I/O gives the same result however the transport cuts or interrupts it",
  "Handshake, reads and writes over a blocking transport have the same outcome however reads and writes are fragmented or interrupted: every byte is processed once, in order, bytes read ahead during the handshake are not lost, "
  "also when the session is taken apart. Everything written is flushed before the call returns or waits for the peer, so two nodes never wait for each other.",
  ["schedules", "inputs", "fault_sequences"], "every placement of short and interrupted reads and writes",
  "Tests read from complete buffers or a local socket that delivers everything at once.",
  [P + "io.rs"], [("handshake", P + "io.rs"), ("ProtocolReader::read, ProtocolWriter::write", P + "io.rs"), ("ProtocolSessionReader", P + "io.rs")], ["Read and Write calls of the transport", "payloads returned"])
p("C13", "Async I/O gives the same result under every schedule; reads are cancel safe",
  "Handshake, reads and writes over an async transport have the same outcome however operations are fragmented or pending in between. A read dropped at any suspension point and started again continues without losing, "
  "repeating or corrupting anything, and a suspended call has always registered its task for wake-up.",
  ["schedules", "inputs", "histories"], "every placement of pending, short reads and writes, and cancellations",
  "Tests run over an in-memory duplex which is nearly always ready; cancellation is tried at one point.",
  [P + "futures.rs"], [("DecryptState", P + "futures.rs"), ("ProtocolSessionReader::poll_read", P + "futures.rs"), ("handshake", P + "futures.rs")], ["poll results", "payloads returned"])
p("C14", "An unauthenticated peer can make the node take only bounded memory",
  "Whatever length a packet claims, in the handshake or in a session, blocking or async, no more than the documented limit is allocated for it and larger packets are refused before their contents are read or allocated, "
  "while every packet within the limit is accepted. Garbage without terminator is given up at the limit of the protocol.",
  ["inputs"], "every claimed length and every amount of garbage",
  "Tests check one size above the limit in one of the four places.",
  [P + "io.rs", P + "futures.rs", P + "lib.rs"], [("MAX_PACKET_SIZE_FOR_ALLOCATION", P + "lib.rs"), ("handshake, read", P + "io.rs"), ("handshake, read", P + "futures.rs")], ["allocations", "Error::PacketTooBig", "Error::NoGarbageTerminator"])
p("C15", "Sizes announced for sending are exact and protocol limits are enforced",
  "The lengths the library announces for a packet, the key message and the version message are exactly what is written, nothing beyond is touched, and any smaller buffer is refused with the exact requirement. "
  "Contents that do not fit in the three length bytes and garbage above 4095 bytes are refused rather than mis-encoded.",
  ["inputs"], "every contents, garbage and decoy length and every buffer size",
  "Tests use buffers of exactly the right size or one too small.",
  [P + "lib.rs", P + "handshake.rs"], [("encryption_buffer_len", P + "lib.rs"), ("send_key_len, send_version_len", P + "handshake.rs")], ["return values", "buffers"])
p("C16", "Old-protocol peers and hang-ups are recognized exactly",
  "A peer is taken for an old-protocol one exactly if its first four bytes are the network magic, and then nothing but the key has been sent. An I/O failure or end of stream is passed on with its kind, through the traffic shaper too, and retrying with the "
  "old protocol is suggested exactly when the peer seems to have hung up (reset, aborted, unexpected end).",
  ["inputs", "fault_sequences"], "every first message, error kind and point of failure",
  "Tests cover one magic and one or two error kinds at one point.",
  [P + "handshake.rs", P + "io.rs", P + "futures.rs"], [("receive_key", P + "handshake.rs"), ("From<io::Error> for ProtocolError", P + "io.rs")], ["Error::V1Protocol", "ProtocolFailureSuggestion"])
p("C17", "A stream that ends, fails or is altered anywhere never yields invented data",
  "At whatever byte a stream ends, fails or is altered, reads deliver exactly the packets that arrived whole and unaltered before it and then report errors; no partial, altered or out-of-order payload is ever returned, "
  "and a handshake that did not complete never yields a session. A write is reported as done only if all its bytes left, and what left is a prefix of the right bytes.",
  ["fault_sequences", "inputs"], "every position of an end, failure or alteration",
  "Tests end or damage streams at one or two places.",
  [P + "io.rs", P + "futures.rs", P + "lib.rs"], [("read_exact uses", P + "io.rs"), ("DecryptState", P + "futures.rs")], ["results of read and write"])
p("C18", "Traffic shaping over blocking I/O is invisible and ends with the session",
  "With any shaping configuration and any interleaving of application writes and background decoys, the peer receives exactly the application's messages in order among valid decoys, in one valid packet stream; the application reads "
  "exactly what the peer sent, in order and with its packet types. A write reported as done is readable by the peer, also when a background decoy failed before it. "
  "While the session lives and its transport works, decoys go on whenever configuration and random source ask for them; dropping it stops the background thread, nothing is sent afterwards, and no operation deadlocks.",
  ["schedules", "configurations", "inputs"], "every interleaving, configuration and random choice of the shaper",
  "Tests run one interleaving and one configuration with time-outs.",
  ["traffic/src/io.rs", "traffic/src/lib.rs"], [("ShapedProtocol writer lock and decoy thread", "traffic/src/io.rs"), ("Drop", "traffic/src/io.rs")], ["bytes on the wire", "payloads returned", "thread termination"])
p("C19", "Traffic shaping over async I/O is invisible and ends with the session",
  "With any shaping configuration and any schedule of the writer task, timers and application calls, the peer receives exactly the application's messages in order among valid decoys; a write is reported done only after its bytes were handed "
  "to the transport, transport errors reach the caller, also those of background decoys, a cancelled write harms nothing. While the session lives and its transport works, decoys go on whenever configuration and random source ask for them; the writer task ends when the session is dropped.",
  ["schedules", "configurations", "inputs"], "every schedule, configuration and random choice of the shaper",
  "Tests run one schedule and one configuration.",
  ["traffic/src/futures.rs", "traffic/src/lib.rs"], [("writer task, channel", "traffic/src/futures.rs")], ["bytes on the wire", "results of write", "task termination"])
p("C20", "Shaping choices stay within protocol and documented bounds; statistics are exact",
  "Whatever the random source returns, garbage and decoys the shaper generates respect the protocol's and the documented limits, disabled strategies generate nothing, and padding precedes every genuine message when enabled. "
  "The statistics equal the sum of what was recorded however reads and writes are interleaved between threads.",
  ["inputs", "schedules", "configurations"], "every random outcome, configuration and interleaving of recordings",
  "Tests sample the random generator and record from one thread.",
  ["traffic/src/lib.rs"], [("TrafficShaper", "traffic/src/lib.rs"), ("AtomicTrafficStats", "traffic/src/lib.rs")], ["garbage, decoys", "TrafficStats"])
p("C21", "Secrets and garbage come fresh and whole from the random source",
  "The secret key of every handshake consists of exactly the 32 bytes the random source returned for that handshake, whichever constructor, role or I/O flavour is used; no handshake uses what was drawn for another one, and nothing is "
  "substituted for what was drawn. All garbage the traffic shaper sends comes from the random source too, so an observer cannot tell it from noise.",
  ["inputs", "configurations"], "every value the random source may return, both roles, blocking and async",
  "Tests use the generator as it is, and cannot tell a key with half its entropy, a key used twice or patterned garbage from a proper one.",
  [P + "handshake.rs", P + "lib.rs", P + "io.rs", P + "futures.rs", "traffic/src/lib.rs"],
  [("Handshake::new, new_with_rng", P + "handshake.rs"), ("FillBytes", P + "lib.rs"), ("TrafficShaper::handshake", "traffic/src/lib.rs")], ["public key and garbage on the wire"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "properties.jsonl"), "w") as f:
    for r in rows:
        assert len(r["title"]) <= 80, r["id"]
        f.write(json.dumps(r) + "\n")
