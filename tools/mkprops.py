#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a program so that the file stays one line per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

CC = "chacha20/src/"
BACK = [CC + "backends/soft.rs", CC + "backends/sse2.rs", CC + "backends/avx2.rs", CC + "backends/avx512.rs", CC + "backends/neon.rs"]
prop("C01", "ChaCha8/12/20 and ChaCha20Legacy produce the specified keystream",
     "For every key, nonce and byte position, the bytes that ChaCha8, ChaCha12, ChaCha20 (RFC 8439 layout, 32-bit counter) and ChaCha20Legacy (original layout, 64-bit counter) combine with the data are exactly the keystream bytes of the published algorithm at that position. This holds on every backend (portable, SSE2, AVX2, AVX-512, NEON), whether forced or autodetected, and for any sequence of requests and seeks that leads to the position. The generic ChaChaCore does the same for any round count.",
     ["inputs", "histories", "configurations"],
     "all 256-bit keys, all nonces, all positions up to the end of the keystream, all request/seek histories, all selectable backends",
     "The tests compare a handful of published vectors, nearly all at small positions; the vectors that exist run on one autodetected backend and never cross a 2^32-block boundary inside a parallel batch.",
     [CC + "lib.rs", CC + "chacha.rs", CC + "legacy.rs", CC + "variants.rs"] + BACK,
     [("state layout and counter/nonce split", CC + "lib.rs new_internal"), ("counter width per variant", CC + "variants.rs"),
      ("parallel block generation and counter lanes", CC + "backends/*.rs")],
     [("state[12..16]", "counter and nonce words", CC + "lib.rs ChaChaCore")],
     ["StreamCipher / StreamCipherSeek calls on the public cipher types"])
prop("C02", "XChaCha and HChaCha derive the specified subkey and keystream",
     "For every key and 192-bit nonce, XChaCha8, XChaCha12 and XChaCha20 produce the keystream of the ChaCha variant with as many rounds, keyed with HChaCha of the key and the first 16 nonce bytes, under a nonce of four zero bytes followed by the last 8 nonce bytes. The hchacha function returns the specified 32 bytes for every key, 16-byte input and round count.",
     ["inputs", "histories", "configurations"],
     "all keys, nonces, positions and histories; all round counts; all backends",
     "One HChaCha vector (20 rounds) and a few XChaCha20 vectors exist; the 8- and 12-round variants and all other keys and nonces are not exercised.",
     [CC + "xchacha.rs", CC + "lib.rs"] + BACK,
     [("subkey derivation", CC + "xchacha.rs hchacha"), ("nonce split", CC + "xchacha.rs KeyIvInit for XChaChaCore")],
     None, ["hchacha()", "XChaCha8/12/20 keystream"])
prop("C03", "Salsa20/8, Salsa20/12 and Salsa20 produce the specified keystream",
     "For every 256-bit key, 64-bit nonce and byte position, Salsa8, Salsa12 and Salsa20 combine the data with exactly the keystream of the Salsa20 specification with that number of rounds, with a 64-bit block counter that carries into its high word. It holds for any sequence of requests and seeks that leads to the position, and of the generic SalsaCore for any round count.",
     ["inputs", "histories"],
     "all keys, nonces, 64-bit block positions, request/seek histories and the three round counts",
     "The tests check eSTREAM vectors at small offsets for Salsa20; counter carries, high positions and Salsa8/12 at arbitrary keys are not reached.",
     ["salsa20/src/lib.rs", "salsa20/src/backends/soft.rs"],
     [("state layout", "salsa20/src/lib.rs KeyIvInit for SalsaCore"), ("64-bit counter", "salsa20/src/lib.rs StreamCipherSeekCore"),
      ("rounds and feed-forward", "salsa20/src/backends/soft.rs run_rounds")],
     [("state[8], state[9]", "64-bit block counter", "salsa20/src/lib.rs")], ["StreamCipher / StreamCipherSeek calls"])
prop("C04", "XSalsa, HSalsa and raw-state Salsa cores follow their specification",
     "For every key and 192-bit nonce, XSalsa8/12/20 produce the Salsa keystream (same round count) keyed with HSalsa of the key and the first 16 nonce bytes under the last 8 nonce bytes; hsalsa returns the specified 32 bytes for every key, input and round count. A core built from any raw 16-word state produces the Salsa function of exactly that state and of its counter words' successors.",
     ["inputs", "histories"],
     "all keys, nonces, raw states, positions and histories; the three round counts",
     "One HSalsa vector pair and XSalsa20 vectors are tested; raw states, 8- and 12-round variants and all other inputs are not.",
     ["salsa20/src/xsalsa.rs", "salsa20/src/lib.rs", "salsa20/src/backends/soft.rs"],
     [("hsalsa", "salsa20/src/xsalsa.rs"), ("from_raw_state", "salsa20/src/lib.rs")], None,
     ["hsalsa()", "XSalsa*/SalsaCore::from_raw_state keystream"])
prop("C05", "HC-256 produces the specified keystream for any key, IV and length",
     "For every 256-bit key and 256-bit IV, Hc256 combines the data with exactly the keystream of the HC-256 specification, from the first byte to any later one. It holds for any sequence of request sizes, including streams that run through many table updates.",
     ["inputs", "histories"], "all keys, IVs, stream lengths and request sequences",
     "Three or four published vectors of a few dozen bytes are tested: table indices, the wrap of the 2048-step schedule and long streams are not.",
     ["hc-256/src/lib.rs"], [("table initialisation", "hc-256/src/lib.rs KeyIvInit::new"), ("step function", "hc-256/src/lib.rs gen_word, g1, g2, h1, h2")],
     [("ptable, qtable, idx", "the two secret tables and the step counter", "hc-256/src/lib.rs")], ["StreamCipher calls"])
prop("C06", "Rabbit produces the RFC 4503 keystream with and without an IV",
     "For every 128-bit key, RabbitKeyOnly combines the data with exactly the RFC 4503 keystream without IV setup, and for every key and 64-bit IV, Rabbit does so with IV setup. It holds for any sequence of request sizes and any stream length.",
     ["inputs", "histories"], "all keys, IVs, stream lengths and request sequences",
     "The six RFC 4503 vectors (48 bytes each) are tested; rare counter-carry patterns in the key schedule and in long streams are not.",
     ["rabbit/src/lib.rs"], [("key and IV setup", "rabbit/src/lib.rs setup_key, setup_iv"), ("counter system with carry", "rabbit/src/lib.rs counter_update"),
                             ("extraction", "rabbit/src/lib.rs extract")],
     [("x, c, carry_bit", "state words, counters, counter carry", "rabbit/src/lib.rs State")], ["StreamCipher calls"])
prop("C07", "RC4 produces the specified keystream for every key length",
     "For every key of 1 to 256 bytes, Rc4 combines the data with exactly the RC4 keystream of that key, for any stream length and any sequence of request sizes.",
     ["inputs", "histories"], "all keys of all lengths from 1 to 256 bytes, stream lengths and request sequences",
     "The RFC 6229 vectors cover seven key lengths and offsets up to 4 KiB; the other key lengths and request shapes are not tested.",
     ["rc4/src/lib.rs"], [("key schedule", "rc4/src/lib.rs new_from_slice"), ("generator", "rc4/src/lib.rs prga")],
     [("state, i, j", "permutation and indices", "rc4/src/lib.rs")], ["KeyInit::new_from_slice, StreamCipher calls"])
prop("C08", "Keystream does not depend on how requests are cut or which call is used",
     "For every cipher of the repository, serving a range of the keystream through any sequence of request sizes and any mix of the in-place, buffer-to-buffer, in-out and write-keystream calls (fallible, panicking or unchecked), at any buffer alignment, gives the same bytes as one single request, and applying the keystream twice returns the data. Input buffers are left unchanged, nothing outside the output is written, and buffers of different lengths are refused with nothing written.",
     ["inputs", "histories"], "all ciphers, request partitions, entry points, alignments, start positions and data",
     "Tests run a few chunk sizes through the in-place call only; the boundary between buffered bytes, whole parallel batches and tail blocks depends on the history of sizes.",
     ["chacha20/src/lib.rs"] + BACK[:4] + ["salsa20/src/backends/soft.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
     [("block, parallel and tail generation", "chacha20/src/backends/*.rs"), ("byte-wise StreamCipher implementation", "rc4/src/lib.rs"),
      ("single-block backends", "salsa20, hc-256, rabbit")], None, ["every StreamCipher entry point"])
prop("C09", "Seeking and position reports are exact and coherent",
     "For every seekable cipher, after a successful seek to byte position p the next output byte is keystream byte p, and the reported position always equals the last position sought plus the bytes consumed since (or the start position if none was sought), in every integer type that can represent it. A seek succeeds exactly for positions from 0 to the end of the keystream, and a refused seek or position query changes nothing.",
     ["inputs", "histories"], "all positions, position types, seek/request/query histories, seekable ciphers and backends",
     "The tests seek to a handful of offsets near 0 and 2^38; they do not mix seeks, partial blocks and parallel batches, nor reach the ends of the types.",
     [CC + "variants.rs", CC + "lib.rs", CC + "xchacha.rs", "salsa20/src/lib.rs", "salsa20/src/xsalsa.rs"],
     [("get_block_pos / set_block_pos", CC + "variants.rs, salsa20/src/lib.rs"), ("counter write-back after a backend session", CC + "backends/*.rs inner")],
     [("block counter", "32 or 64 bits of the state", CC + "variants.rs; salsa20/src/lib.rs")], ["try_seek, seek, try_current_pos, current_pos"])
prop("C10", "Keystream is never reused at its end; refused requests change nothing",
     "For every seekable cipher, a request succeeds exactly when it ends at or before the end of the keystream (2^32-1 or 2^64-1 blocks of 64 bytes), so no request ever returns bytes from a wrapped counter; the remaining-length query agrees. A refused request reports an error (or panics, for the panicking calls) and leaves the buffer, the position and the later output as they were.",
     ["inputs", "histories"], "all requests, sizes and positions around the end of the keystream, all entry points, ciphers and backends",
     "Tests probe the end of the 32-bit keystream with one or two sizes on one backend; the 64-bit end and the state after a refusal are not checked.",
     [CC + "variants.rs", CC + "lib.rs", "salsa20/src/lib.rs", "salsa20/src/xsalsa.rs", CC + "xchacha.rs"],
     [("remaining_blocks", CC + "variants.rs, salsa20/src/lib.rs")], None, ["check_remaining, every request entry point, remaining_blocks"])
prop("C11", "ChaCha RNG output is the ChaCha keystream at the current position",
     "For every seed, stream id and history of operations, every value drawn from ChaCha8Rng, ChaCha12Rng or ChaCha20Rng (32-bit, 64-bit or byte-fill, any length) consists of the consecutive little-endian words of the 64-bit-counter ChaCha keystream of that seed and stream, starting at the current word position: one word per 32-bit draw, two per 64-bit draw, one per started four bytes of a fill. It holds on every backend, and for the underlying four-block generator at every block position.",
     ["inputs", "histories", "configurations"], "all seeds, streams, positions (68-bit), draw histories, round counts and backends",
     "Tests compare the first outputs for a few seeds and one backend; draws that straddle buffer refills, 2^32-block boundaries or the end of the cycle are sampled at one or two points.",
     [CC + "rng.rs"] + BACK, [("Generator::generate", CC + "rng.rs"), ("rng_inner / gen_ks_blocks", CC + "backends/*.rs")],
     [("core.state[12..16]", "block counter and stream id", CC + "rng.rs")], ["Rng / TryRng methods; Generator::generate"])
prop("C12", "ChaCha RNG positions, streams and seeds are accounted for exactly",
     "After any history, the reported word position equals the position last set (or 0) plus the words drawn since, modulo 2^68; the block position is that value divided by 16; the stream and seed reported are those in force. Setting a word or block position makes the next draw start there, setting a stream selects it and returns to position 0, and no query changes any later output.",
     ["inputs", "histories"], "all 68-bit positions, 64-bit streams, seeds and interleavings of draws, moves and queries",
     "Tests set and read back a few positions; reports after a wrapped counter, after partial consumption of a refilled buffer and in long mixed histories are not covered.",
     [CC + "rng.rs", CC + "variants.rs"], [("get_word_pos/set_word_pos/get_block_pos/set_block_pos/set_stream", CC + "rng.rs")],
     [("buffer index", "words of the four-block buffer already handed out", CC + "rng.rs via rand_core BlockRng")], ["position, stream and seed getters and setters"])
prop("C13", "RNG state serialisation round-trips and equality means same future",
     "For every reachable RNG state, the serialised form is the seed, the little-endian stream id and the little-endian 9-byte word position, and deserialising it gives an RNG that compares equal and continues with the same output; any 49 bytes deserialise, with bits above the 68-bit position ignored. Two RNGs of a type compare equal exactly when seed, stream and word position agree, however their buffers were filled.",
     ["inputs", "histories"], "all states reached by any history, all 49-byte inputs, all pairs of states",
     "Tests round-trip a few states; equality between differently buffered states, wrapped positions and arbitrary serialised bytes are not explored.",
     [CC + "rng.rs"], [("serialize_state / deserialize_state", CC + "rng.rs"), ("PartialEq", CC + "rng.rs")], None, ["serialize_state, deserialize_state, =="])
ALLF = [CC + "lib.rs", CC + "rng.rs", "chacha20/Cargo.toml", "salsa20/src/lib.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"]
prop("C14", "With the zeroize feature, dropping an instance erases its secrets",
     "With the zeroize feature enabled, after any history of use, dropping a cipher, cipher core or RNG leaves in the memory it occupied nothing that depends on the key, nonce, seed, position or keystream: the key material, internal state and buffered keystream are all erased. Every such type also implements ZeroizeOnDrop.",
     ["inputs", "histories", "configurations"], "all cipher, core and RNG types, keys, histories before the drop, backends and optimisation levels",
     "Tests cannot read memory after a drop: erasure is invisible to the API, and the compiler may remove the stores.",
     ALLF + ["salsa20/Cargo.toml", "hc-256/Cargo.toml", "rabbit/Cargo.toml", "rc4/Cargo.toml"],
     [("Drop implementations", "chacha20/src/lib.rs, salsa20/src/lib.rs, hc-256/src/lib.rs, rabbit/src/lib.rs, rc4/src/lib.rs"),
      ("Generator::drop for the RNG buffer", CC + "rng.rs"), ("feature forwarding", "chacha20/Cargo.toml")], None,
     ["the instance's memory when its allocation is released"])
prop("C15", "Debug output never reveals secret state",
     "For every cipher, core and RNG type that can be printed with Debug (plain or alternate form), the text is the same for all keys, nonces, seeds, positions and histories of use: nothing of the secret state can be read from it. Algorithm names likewise depend on the type alone.",
     ["inputs", "histories"], "all printable types, keys, nonces, seeds and histories",
     "Tests compare one printed string for one instance at most; a field added to the output would pass them.",
     [CC + "lib.rs", CC + "rng.rs", CC + "xchacha.rs", "salsa20/src/lib.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
     [("opaque Debug implementations", CC + "lib.rs, " + CC + "rng.rs, hc-256/src/lib.rs")], None, ["format!(\"{:?}\"), format!(\"{:#?}\")"])
prop("C16", "No call reads or writes outside its buffers or has undefined behaviour",
     "For every cipher and RNG, every backend and every sequence of public calls with buffers of any length and alignment, no memory outside the given buffers and the instance itself is read or written, input buffers are never written, and no undefined behaviour (out-of-bounds, misaligned or uninitialised access, invalid aliasing, executing unavailable instructions) occurs.",
     ["inputs", "histories", "configurations"], "all lengths, alignments, histories, ciphers, RNGs and backends with unsafe code",
     "A test sees only the bytes it compares; stray reads and writes, misaligned vector accesses and aliasing violations pass unnoticed.",
     BACK + [CC + "lib.rs", CC + "rng.rs"], [("pointer casts and vector loads/stores", CC + "backends/*.rs")], None,
     ["guard pages, AddressSanitizer, Miri, read-only inputs around every call"])
prop("C17", "Results are the same on every architecture, word size and byte order",
     "Every cipher and RNG gives the same keystream, positions, errors and serialised states on little- and big-endian, 32- and 64-bit targets and with the NEON backend as the specification prescribes. Nothing depends on pointer width, byte order or on the architecture-specific backend selected for the target.",
     ["configurations", "inputs", "histories"], "targets of both byte orders and word sizes, aarch64 with NEON; all inputs and histories",
     "The tests run on one x86-64 host: neither the NEON backend, nor big-endian, nor 32-bit code is ever executed.",
     [CC + "backends/neon.rs", CC + "backends/soft.rs", CC + "rng.rs", CC + "variants.rs", "salsa20/src/lib.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
     [("explicit little-endian conversions", "all crates"), ("NEON backend", CC + "backends/neon.rs")], None, ["the same histories executed under the Miri interpreter for each target"])
prop("C18", "Backend, feature and build-profile choices do not change behaviour",
     "For every history of public calls, each way of building the crates (forced soft, SSE2, AVX2 or AVX-512 backend, autodetection with and without AVX-512, with and without zeroize and the other optional features, debug-checked or release) gives the same outputs, positions, errors and serialised states, and every documented flag and feature combination builds.",
     ["configurations", "histories", "inputs"], "all documented backend flags, feature sets and profiles; all histories",
     "The tests run each configuration, if at all, against the same few vectors; differences at counter boundaries, in block-level sessions or under rarely built flags are not compared.",
     [CC + "lib.rs", CC + "backends.rs", CC + "rng.rs", "chacha20/Cargo.toml"] + BACK[:4], [("backend selection", CC + "lib.rs, " + CC + "backends.rs, " + CC + "rng.rs")],
     [("tokens", "detected CPU features", CC + "lib.rs ChaChaCore")], ["transcripts of identical histories from each build"])
prop("C19", "Autodetecting builds execute only instructions the CPU reports",
     "A build that autodetects CPU features executes, in every cipher and RNG operation, only instructions of instruction-set extensions that the processor reports as available (and of the baseline), and gives correct results on every such processor: with AVX-512, with AVX2 but not AVX-512, and with SSE2 only. A forced backend likewise uses only the extensions it is documented to need.",
     ["configurations", "inputs"], "all CPU feature sets the detection distinguishes (none, AVX2, AVX2+AVX-512 and partial AVX-512 reports), all operations",
     "Tests run on one CPU with its full feature set, where a wrong dispatch or an instruction from a higher extension goes unnoticed.",
     [CC + "lib.rs", CC + "rng.rs"] + BACK[1:4], [("cpufeatures tokens and dispatch order", CC + "lib.rs process_with_backend, " + CC + "rng.rs generate"),
      ("target_feature attributes", CC + "backends/*.rs")], [("tokens", "detected CPU features", CC + "lib.rs")],
     ["instruction trace of the process under an emulated CPUID; Miri with restricted target features"])
prop("C20", "ChaCha family and Salsa family run in constant time",
     "For ChaCha, XChaCha, HChaCha, the ChaCha RNGs and the Salsa family, the sequence of instructions executed and of memory addresses accessed by construction, keystream requests and seeks depends only on lengths, public positions and buffer addresses: never on the key, nonce, seed, keystream or data. (HC-256 and RC4 index tables by secret values by design and are excluded.)",
     ["inputs", "histories", "configurations"], "all keys, nonces, seeds and data; all operations; all backends",
     "Timing and address behaviour are invisible to functional tests.",
     [CC + "lib.rs", CC + "rng.rs", CC + "xchacha.rs"] + BACK[:4] + ["salsa20/src/lib.rs", "salsa20/src/xsalsa.rs", "salsa20/src/backends/soft.rs"],
     [("add-rotate-xor only", CC + "backends/*.rs, salsa20/src/backends/soft.rs")], None,
     ["memcheck with secrets marked undefined; instruction-address traces for two secrets"])
prop("C21", "Instances are independent of each other and of the thread they run on",
     "The output of an instance is a function of its own construction and calls only: whatever other instances exist, on the same or other threads, in whatever interleaving, and even when the first uses of all threads race (CPU feature detection included) or the instance moves between threads, it produces its own keystream. No data race occurs, and every public type can be sent to and shared with other threads.",
     ["schedules", "histories"], "all interleavings of operations on several instances and threads, including racing first use",
     "The tests are single-threaded, use one instance at a time and initialise CPU detection before any race can happen.",
     [CC + "lib.rs", CC + "rng.rs", "salsa20/src/lib.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
     [("no shared mutable state except CPU detection", CC + "lib.rs cpufeatures tokens")], None,
     ["per-thread histories checked against the model, under ThreadSanitizer and Miri's race detector"])
prop("C22", "Construction accepts exactly the documented lengths",
     "For every cipher, construction from slices succeeds exactly for the documented key and nonce lengths (RC4: any key of 1 to 256 bytes) and returns an error, never a panic, for any other; the same key and nonce give the same instance through every construction path (arrays, slices, core first, key then IV). Construction leaves the key, nonce and seed it was given unchanged and starts at position 0.",
     ["inputs"], "all key and nonce lengths from 0 to well past the maximum, all contents, all construction paths",
     "Tests construct with correct lengths; wrong lengths and the agreement of the paths are sampled at best.",
     [CC + "lib.rs", CC + "chacha.rs", CC + "legacy.rs", CC + "xchacha.rs", "salsa20/src/lib.rs", "salsa20/src/xsalsa.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"],
     [("KeySizeUser/IvSizeUser declarations", "all crates"), ("length validation", "rc4/src/lib.rs new_from_slice")], None,
     ["new, new_from_slice, new_from_slices, from_core, inner_iv_init"])
prop("C23", "No valid use panics or overflows, in debug or release builds",
     "No sequence of valid public calls on any cipher, core or RNG panics, overflows an integer or fails an assertion, also when built with overflow checks and debug assertions, at any position up to and including the last block and the wrap-around points of counters. Only the calls documented to panic do so, and only on the documented error.",
     ["inputs", "histories", "configurations"], "all valid histories on all types, concentrated at counter and length extremes; checked builds of every backend",
     "Overflow panics appear only at extreme counter values, which the tests do not visit, and only in builds with checks.",
     [CC + "rng.rs", CC + "variants.rs", "salsa20/src/lib.rs", "salsa20/src/backends/soft.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs", "rc4/src/lib.rs"] + BACK[:4],
     [("wrapping counter arithmetic", CC + "rng.rs, " + CC + "backends/*.rs, salsa20/src/backends/soft.rs")], None,
     ["panic hook in builds with overflow checks and debug assertions"])
prop("C24", "Block-level interfaces generate consecutive blocks and keep the counter",
     "On every cipher core, generating any number of blocks by any mix of the single-block, multi-block, in-place, in-out and partial calls and of custom backend sessions (single, parallel and tail generation in any order) gives the consecutive keystream blocks from the current block position and advances the position by exactly their number, modulo the counter width. The number of remaining blocks is always the distance to the maximum, and a counter that runs through its maximum never alters key or nonce.",
     ["inputs", "histories", "configurations"], "all block counts, call mixes, sessions, positions including the wrap, cores and backends",
     "Tests use the byte-level wrapper only, which always ends a session with one kind of call and never lets the counter wrap.",
     BACK + [CC + "variants.rs", "salsa20/src/backends/soft.rs", "hc-256/src/lib.rs", "rabbit/src/lib.rs"],
     [("gen_ks_block / gen_par_ks_blocks / gen_tail_blocks", CC + "backends/*.rs"), ("counter write-back", CC + "backends/*.rs inner")],
     [("backend counter lanes", "per-lane counters inside a session", CC + "backends/*.rs")], ["StreamCipherCore, StreamCipherSeekCore, StreamCipherClosure"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
