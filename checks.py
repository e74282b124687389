"""What each property's check runs: harnesses per crate and tier, bounds, assumptions."""

CRYPTO = ("ChaCha20, Poly1305, SHA-256/HKDF and the ElligatorSwift Diffie-Hellman are replaced by deterministic models with the same "
          "interfaces (env/): the keystream, the tag and the derived keys are injective-by-construction mixing functions of all their inputs; "
          "that the real crates implement the standard functions is outside every claim here")
IDEAL = "a tag verifies exactly for what was sealed under the same key, nonce and associated data (ideal authenticated encryption)"
TRUST = "rustc's lowering to LLVM IR, the executor in engine/ (validated on every run against native execution of sampled paths), z3"
RANDOM = ("`rand` is replaced by a source that may return anything within the type or the range asked for (env/rand); long byte strings are arbitrary at their ends only")
THREADS = ("std's threads, mutexes and channels are executed as they are, down to the system calls (futex, sleep, clock); states that agree in everything but a 128-bit hash are taken to be the same")
ARCH = "x86-64, 64-bit usize; profile with overflow checks and debug assertions on; a replay is tried in dev and in release"


def h(cost=1, **k):
    return dict(cost=cost, **k)


CHECKS = {
    "C01": dict(
        run={"proto": {"quick": {"c01_api": h(7), "c01_long": h(3), "c01_sizes": h(19), "c02_index_out": h(10, hook=1), "c02_index_in": h(10, hook=1), "c12_sizes": h(6), "c12_write": h(4), "c01_forward": h(1)}},
             "fut": {"quick": {"c12_sizes": h(9), "c12_write": h(4), "c01_forward": h(1)}}},
        bounds="symbolic contents, packet type and role; contents of 0..=64 bytes through every API variant; 680 packets (three rekeyings) in a row in each direction; "
               "sizes up to 2^24-18 at boundaries",
        outside="more than two rekeyings in one history (C02 covers every message index by itself), contents longer than 8 bytes with every byte symbolic",
        assumptions=[CRYPTO, TRUST, ARCH]),
    "C02": dict(
        run={"proto": {"quick": {"c02_stream_initiator": h(6), "c02_stream_responder": h(6), "c02_index_out": h(10, hook=1), "c02_index_in": h(10, hook=1), "c01_sizes": h(19), "c11_header": h(), "c10_sent": h(), "c12_write": h(4)}},
             "fut": {"quick": {"c12_write": h(4)}}},
        bounds="680 packets from the first one on, and (hooked constructor) one packet at every message index q*224+r, r in 0..224, q < 2^48, under any keys",
        outside="message indices of 2^48*224 and more; contents longer than 4 bytes here",
        assumptions=[CRYPTO, TRUST, ARCH]),
    "C03": dict(
        run={"proto": {"quick": {"c03_forge": h(6), "c03_order": h(4), "c10_received": h(), "c17_tamper": h(2), "c17_fail": h(2)}},
             "fut": {"quick": {"c17_tamper": h(2), "c17_fail": h(2)}}},
        bounds="any change of any bytes of a packet of up to 6 content bytes; any one of 5 sent packets (either direction, any two sessions) presented in any order",
        outside="forgeries against longer packets, across more than 5 packets",
        assumptions=[CRYPTO, IDEAL, TRUST, ARCH]),
    "C04": dict(
        run={"proto": {"quick": {"c04_encrypt": h(2), "c04_decrypt": h(36), "c15_packet": h(), "c15_oversize": h(), "c15_handshake": h(3)}}},
        bounds="buffers of every length from 0 to 8 bytes over what is needed, packets of up to 6 content bytes, one failing call between good ones",
        outside="longer buffers and packets",
        assumptions=[CRYPTO, IDEAL, TRUST, ARCH]),
    "C05": dict(
        run={"proto": {"quick": {"c05_packets": h(21), "c05_handshake": h(2), "c05_io_garbage": h(1), "c05_io_version": h(4), "c05_io_session": h(11)}},
             "fut": {"quick": {"c05_io_garbage": h(1), "c05_io_version": h(5), "c05_io_session": h(13)}}},
        bounds="any bytes: up to 24 per packet for the ciphers; any key, up to 24 bytes of garbage, any version packet for the handshake; up to 40 bytes after the keys for the streams, tags accepted or not at will",
        outside="longer hostile inputs with every byte symbolic (C14 takes any claimed length)",
        assumptions=[CRYPTO, "whether a tag verifies is arbitrary: covers peers who hold the session keys", TRUST, ARCH]),
    "C06": dict(
        run={"proto": {"quick": {"c06_reuse": h(6), "c06_erase": h(2)}}},
        bounds="680 packets in both directions with both APIs, any contents; every (key, nonce, purpose) recorded",
        outside="longer histories (C02 fixes key and nonce at every index)",
        assumptions=[CRYPTO, TRUST, ARCH]),
    "C07": dict(
        run={"proto": {"quick": {"c07_keys": h(), "c07_secret": h(), "c07_pair": h()}}},
        bounds="any magic, any secret key, any peer key, both roles",
        outside="the functions behind the derivation",
        assumptions=[CRYPTO, TRUST, ARCH]),
    "C08": dict(
        run={"proto": {"quick": {"c08_any_peer": h(17), "c08_long": h(8), "c08_many": h(12), "c08_many_io": h(6), "c12_sizes": h(6), "c11_handshake": h(2), "c09_chunks": h(3), "c09_positions": h(1), "c11_long": h(3), "c14_large_handshake": h(7), "c12_flush": h()}},
             "fut": {"quick": {"c08_many_io": h(6), "c12_sizes": h(9), "c14_large_handshake": h(6), "c12_flush": h()}}},
        bounds="garbage 0..=4095 bytes (boundaries, symbolic up to 20), 0..=3 decoys of any contents up to 4 bytes, up to 301 decoys in either direction (the keys change during the handshake), version contents of 0..=2 bytes, any chunking of two pieces",
        outside="more decoys, longer symbolic contents",
        assumptions=[CRYPTO, TRUST, ARCH]),
    "C09": dict(
        run={"proto": {"quick": {"c09_short": h(), "c09_long": h(), "c09_positions": h(1), "c09_chunks": h(3), "c12_sizes": h(6), "c14_garbage": h(24), "c08_long": h(8)}},
             "fut": {"quick": {"c12_sizes": h(9), "c14_garbage": h(20)}}},
        bounds="any bytes up to 24 for the search; the terminator at every position 0..=4096 of a long stream; any chunking of two pieces",
        outside="streams longer than 24 bytes with every byte symbolic",
        assumptions=[CRYPTO, TRUST, ARCH]),
    "C10": dict(
        run={"proto": {"quick": {"c10_received": h(1), "c10_sent": h(1), "c10_long": h(5), "c08_any_peer": h(17), "c12_write": h(4), "c12_sizes": h(6)}},
             "fut": {"quick": {"c12_write": h(4), "c12_sizes": h(9)}}},
        bounds="any garbage up to 3 bytes, any tampering with it, 0..=2 decoys; garbage of 15 lengths up to 4095 with any change of one byte at 24 positions",
        outside="longer garbage with every byte symbolic",
        assumptions=[CRYPTO, IDEAL, TRUST, ARCH]),
    "C11": dict(
        run={"proto": {"quick": {"c11_header": h(), "c11_handshake": h(2), "c11_long": h(3), "c08_any_peer": h(17), "c01_api": h(7), "c14_large_handshake": h(7), "c12_sizes": h(6)}},
             "fut": {"quick": {"c14_large_handshake": h(6), "c12_sizes": h(9)}}},
        bounds="every header byte; decoys and version contents of 12 sizes up to the largest a packet can hold, 4000014 over a stream",
        outside="other sizes; long contents with every byte symbolic",
        assumptions=[CRYPTO, TRUST, ARCH]),
    "C12": dict(
        run={"proto": {"quick": {"c12_one_cut": h(13), "c12_two_cuts": h(69), "c12_sizes": h(6), "c12_write": h(4), "c12_flush": h(), "c12_leftover": h(2)},
                       "thorough": {"c12_write_twice": h(150)}}},
        bounds="one short or interrupted read at every byte of a session (garbage 0, 3, 20, a decoy, three packets), two within 24 reads of each other; uniform read sizes 1..=257; one (thorough: two) short or interrupted writes anywhere",
        outside="three and more cuts at independent places",
        assumptions=[CRYPTO, TRUST, ARCH]),
    "C13": dict(
        run={"fut": {"quick": {"c13_cancel": h(4), "c13_cancel_more": h(22), "c13_flush": h(7), "c13_duplex": h(26), "c13_rest": h(1), "c12_one_cut": h(15), "c12_two_cuts": h(70), "c12_sizes": h(9),
                               "c12_write": h(4), "c12_flush": h(), "c12_leftover": h(2), "c17_fail": h(2), "c17_eof": h(4)},
                     "thorough": {"c12_write_twice": h(160)}}},
        bounds="one short or suspended read at every byte of a session, two within 24 reads of each other, two anywhere and three within 16 reads in the session itself, each suspended read dropped or resumed; "
               "short and suspended writes and flushes at every byte; a read and a write in progress together in every order; uniform read sizes 1..=257",
        outside="more cuts at independent places; dropping the handshake or a write (not cancellation safe by their documentation); transports without room for one handshake message",
        assumptions=[CRYPTO, "tokio's I/O adapters (ReadExact, Read, WriteAll, Flush) are executed as they are", TRUST, ARCH]),
    "C14": dict(
        run={"proto": {"quick": {"c14_session": h(6), "c14_handshake": h(7), "c14_large": h(5), "c14_large_handshake": h(7), "c14_vec": h(7), "c14_garbage": h(24)}},
             "fut": {"quick": {"c14_session": h(8), "c14_handshake": h(8), "c14_large": h(5), "c14_large_handshake": h(6), "c14_garbage": h(20)}}},
        bounds="every value of the three length bytes, in the handshake and in the session; packets at and around the limit in full; garbage streams of 20000 bytes",
        outside="memory the caller's reader or the contents of accepted packets take",
        assumptions=[CRYPTO, "whether a tag verifies is arbitrary", TRUST, ARCH]),
    "C15": dict(
        run={"proto": {"quick": {"c15_packet": h(), "c15_oversize": h(), "c15_handshake": h(3), "c04_encrypt": h(2), "c12_write": h(4), "c15_io": h(21)}},
             "fut": {"quick": {"c12_write": h(4), "c15_io": h(21)}},
             "traf": {"quick": {"c18_too_long": h(1, preempt=0, naps=0)}}, "atraf": {"quick": {"c19_too_long": h(1, preempt=0, naps=0)}}},
        bounds="every contents length around the limits of three length bytes; garbage 0..=5000; buffers of every length up to 4 over what is needed",
        outside="contents of 2^32 bytes and more",
        assumptions=[CRYPTO, TRUST, ARCH]),
    "C16": dict(
        run={"proto": {"quick": {"c16_v1": h(), "c16_kinds": h(), "c16_io": h(9), "c17_write": h(3), "c17_flush": h(1)}},
             "fut": {"quick": {"c16_io": h(11), "c17_write": h(3), "c17_flush": h(1)}},
             "traf": {"quick": {"c16_shaped": h(6, preempt=0, naps=0)}}, "atraf": {"quick": {"c16_shaped": h(12, preempt=0, naps=0)}}},
        bounds="every 64-byte key, with and without garbage of its own; 16 kinds of I/O errors at every byte of the handshake; end of file at every byte; the same through the traffic shaper at the edges of what is exchanged",
        outside="error kinds outside the list",
        assumptions=[CRYPTO, TRUST, ARCH]),
    "C17": dict(
        run={"proto": {"quick": {"c17_eof": h(4), "c17_short": h(4), "c17_write": h(3), "c17_zero": h(3), "c17_flush": h(1), "c17_fail": h(2), "c17_tamper": h(2), "c03_forge": h(6), "c12_leftover": h(2)}},
             "fut": {"quick": {"c17_eof": h(4), "c17_short": h(4), "c17_write": h(3), "c17_zero": h(3), "c17_flush": h(1), "c17_fail": h(2), "c17_tamper": h(2), "c12_leftover": h(2)}}},
        bounds="end, failure, or transient failure at every byte, a writer that takes nothing more or cannot flush; any change of one byte at every position after the keys (three changes per length byte)",
        outside="several tampered bytes (C03 covers them within a packet)",
        assumptions=[CRYPTO, IDEAL, TRUST, ARCH]),
    "C18": dict(
        run={"traf": {"quick": {"c18_write": h(20, preempt=1), "c18_two_writes": h(32, preempt=1), "c18_drop": h(4, preempt=1), "c18_split": h(5, preempt=1), "c18_read": h(4, preempt=1),
                                "c18_broken": h(18, preempt=1), "c18_broken_padded": h(16, preempt=1), "c18_broken_kinds": h(36, preempt=1), "c18_refused": h(4, preempt=1),
                                "c18_sizes": h(46, preempt=0, naps=0),
                                "c18_alive": h(40, preempt=1, naps=1, punctual=1), "c16_shaped": h(6, preempt=0, naps=0), "c18_too_long": h(1, preempt=0, naps=0)},
                      "thorough": {"c18_alive": h(60, preempt=2, naps=2, punctual=1, timeout=880), "c18_write": h(50), "c18_two_writes": h(120), "c18_drop": h(6), "c18_split": h(14), "c18_read": h(11), "c18_broken_anywhere": h(420, timeout=880), "c18_sizes": h(46, preempt=0), "c18_refused": h(4)}}},
        bounds="every interleaving of the application's thread and the decoy thread with at most 1 (thorough: 2) preemptive switches, besides those where a thread blocks, sleeps, yields or spins, and at most 2 early "
               "wake-ups of a sleeping thread while another can run; messages of 10 sizes up to the largest of either type, in both directions (without preemption); switches at atomic operations, system calls and inside the transport's write; up to 2 messages, every configuration and role, at most one decoy "
               "in the handshake, decoys of 1 or 2 bytes, the transport failing once or for good at the edges of the first packets (thorough: at every byte of them), 10 kinds of failure, of writing or of flushing; 16 kinds at 10 places without background decoys; contents too long for a packet",
        outside="more preemptions and messages; weak memory orders (execution is sequentially consistent)",
        assumptions=[CRYPTO, RANDOM, THREADS, TRUST, ARCH]),
    "C19": dict(
        run={"atraf": {"quick": {"c19_write": h(25, preempt=0), "c19_two_writes": h(16, preempt=0), "c19_two_writes@1": h(80, preempt=1, naps=1), "c19_drop": h(13, preempt=1, naps=1), "c19_split": h(28, preempt=1, naps=1),
                                 "c19_read": h(5, preempt=1, naps=1), "c19_broken": h(20, preempt=0), "c19_lost": h(50, preempt=1, naps=1), "c19_refused": h(2, preempt=0), "c19_cancel": h(25, preempt=0),
                                 "c19_messages": h(17, preempt=0, naps=0), "c19_broken_padded": h(17, preempt=0), "c19_broken_kinds": h(22, preempt=0), "c19_alive": h(40, preempt=0, naps=0, punctual=1),
                                 "c19_stalled": h(6, preempt=0, naps=0, punctual=1), "c16_shaped": h(12, preempt=0, naps=0), "c19_too_long": h(1, preempt=0, naps=0)},
                       "thorough": {"c19_write@1": h(170, preempt=1, naps=1, timeout=880), "c19_split": h(60, preempt=1), "c19_broken@1": h(150, preempt=1, naps=1, timeout=880), "c19_broken_anywhere": h(150, preempt=0, timeout=880),
                                    "c19_cancel@1": h(320, preempt=1, naps=1, timeout=880), "c19_drop": h(50)}}},
        bounds="application and writer task in parallel; every interleaving without preemption, and for most harnesses with 1 preemptive switch at an atomic operation of tokio's channels or of the standard library; timers firing up to 2 "
               "(1 with preemption) times while another task can run; either order of `select!`; messages of 7 sizes up to 5000 of either type, in both directions (without preemption); writes suspended once; up to 2 messages, every configuration, decoys of 1 byte; the transport failing once or for good at the edges "
               "of the first packets (thorough: at every byte of them), 10 kinds of failure, of writing or of flushing; a write given up after 0, 1 or 2 polls; 16 kinds of failure at 10 places without background decoys; contents too long for a packet; a transport that takes nothing for 250 ms in the middle of a packet",
        outside="more preemptions and messages; tokio's own schedulers and timer wheel; weak memory orders",
        assumptions=[CRYPTO, RANDOM, THREADS, "tokio's runtime is replaced by one thread per task (harness-async/tokio); its channels, select! and I/O adapters are executed as they are", TRUST, ARCH]),
    "C20": dict(
        run={"traf": {"quick": {"c20_sizes": h(11, preempt=0), "c20_thread": h(18, preempt=0), "c20_stats": h(), "c20_stats_three": h(), "c20_counts": h(), "c20_clock": h(), "c20_activity": h(), "c18_sizes": h(46, preempt=0, naps=0),
                                "c18_alive": h(40, preempt=1, naps=1, punctual=1)},
                      "thorough": {"c18_alive": h(60, preempt=2, naps=2, punctual=1, timeout=880), "c20_garbage": h(60, preempt=0), "c20_early_decoys": h(340, preempt=0, timeout=880), "c20_padding": h(40, preempt=0), "c20_decoys": h(190, preempt=0, timeout=880)}},
             "atraf": {"quick": {"c19_sizes": h(11, preempt=0, naps=0), "c19_messages": h(17, preempt=0, naps=0)}}},
        bounds="garbage and decoy sizes the two smallest and the two largest of the range asked for, in every combination (thorough: one of them every size); every configuration; up to 2 decoys in the handshake (thorough: 3); "
               "statistics recorded from 2 and 3 threads, 5 recordings, at most 2 preemptive switches",
        outside="the distribution of the choices (the generator is arbitrary here), other sizes in combination",
        assumptions=[CRYPTO, RANDOM, THREADS, TRUST, ARCH]),
    "C21": dict(
        run={"proto": {"quick": {"c21_new": h(), "c21_fill": h(), "c21_io": h(), "c07_secret": h()}}, "fut": {"quick": {"c21_io": h()}},
             "traf": {"quick": {"c21_garbage": h(1, preempt=0, naps=0)}}, "atraf": {"quick": {"c21_garbage": h(1, preempt=0, naps=0)}}},
        bounds="any bytes from the random source, any valid secrets, two handshakes in a row; garbage of 4095 bytes, two sessions whose random sources return different bytes",
        outside="the quality of the random source; garbage of other lengths; what decoys contain (it is encrypted)",
        assumptions=[CRYPTO, "generators return arbitrary bytes, or what follows from the seed they were given (env/)", TRUST, ARCH]),
}

NOT_APPLICABLE = {}
