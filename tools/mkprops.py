#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line) from the table below."""
import json, os
R = "randomgen/"
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=list(over), text=text), why_tests_cant=why,
        anchors=dict(files=[R + f for f in files],
            state=[dict(name=n, meaning=m, where=R + w) for n, m, w in state],
            mechanism=[dict(name=n, where=R + w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))

ALLPYX = [n + ".pyx" for n in ("aes chacha dsfmt efiix64 hc128 jsf lxm mt19937 mt64 pcg32 pcg64 philox "
          "romu sfc sfmt speck128 squares threefry tyche xoroshiro128 xorshift1024 xoshiro256 xoshiro512").split()]

prop("C01", "Restoring a saved state resumes exactly the same stream",
 "For every bit generator and every state it can be in (including partially consumed blocks and a buffered 32-bit half), assigning the dictionary read from `state` to any other instance of the same class, whatever that instance did before, makes it produce exactly the values the original produces next, for any mix of 32-bit, 64-bit and double draws. Reading `state` does not disturb the stream, and reading it back after an assignment returns the values assigned. Pickling and copying rest on the same round trip.",
 ["inputs", "histories"], "every generator class and variant; every reachable internal state; every prior state of the receiving instance; every interleaving of a bounded number of typed draws after the restore",
 "tests restore one state per generator obtained from one or two fixed seeds, and mostly into an instance with the same history; a field lost only when a half word is buffered or a block is partly consumed is not reached",
 ["common.pyx", "_pickle.py"] + ALLPYX,
 [("state property getter/setter of each bit generator", f) for f in ALLPYX],
 [("rng_state", "native state struct, block buffers and has_uint32/uinteger half", "src/*/*.h")],
 ["bg.state", "bg.random_raw", "bg.ctypes.next_uint32/next_uint64/next_double", "pickle"])

prop("C02", "advance(n) equals n draws for every n",
 "For every generator that offers advance (AESCounter, SPECK128, Philox, ThreeFry, PCG32, PCG64, PCG64DXSM, LCG128Mix, Squares), advance(n) leaves the generator in exactly the state that n underlying draws would, for every starting state and every n, including values that carry across words of the counter, wrap around the period, or are negative. Consequently advance(a) followed by advance(b) equals advance(a+b), and for the counter-block generators advancing by a counter amount moves whole blocks.",
 ["inputs"], "every starting state (counter, key, position inside a block) and every delta in the generator's delta range, positive and negative",
 "tests compare advance with stepping for a few small n from a few seeds and compare some large n with each other; carries between counter words, wrap-around and top-limb arithmetic are never drawn because no test can step 2^64 times",
 ["aes.pyx", "speck128.pyx", "philox.pyx", "threefry.pyx", "pcg32.pyx", "pcg64.pyx", "squares.pyx", "common.pyx",
  "src/aesctr/aesctr.c", "src/speck-128/speck-128.c", "src/philox/philox.c", "src/threefry/threefry.c", "src/pcg32/pcg32.c", "src/pcg64/pcg64-common.c", "src/pcg64/pcg64-v2.c", "src/pcg64/lcg128mix.c"],
 [("aesctr_advance", "src/aesctr/aesctr.c"), ("speck_advance", "src/speck-128/speck-128.c"), ("philox*_advance", "src/philox/philox.h"), ("threefry*_advance", "src/threefry/threefry.h"), ("pcg_advance_lcg_64", "src/pcg32/pcg32.c"), ("pcg_advance_lcg_128", "src/pcg64/pcg64-common.c"), ("wrap_int/int_to_array", "common.pyx")],
 observe=["bg.advance", "bg.state", "bg.random_raw"])

prop("C03", "jump and jumped move the stream by the documented distance",
 "For every generator with jump or jumped, jumped(k) returns a new generator of the same configuration whose stream starts exactly at the documented distance (k times the class's jump length) from the original's position, and jump(k) moves the generator itself to that same place; jumping a then b times equals jumping a+b times. The original is not changed by jumped.",
 ["inputs", "histories"], "every starting state, every iteration count k (bounded where the native code loops k times)",
 "the distances are 2^32 to 2^128 draws, so no test can step there; tests compare against recorded outputs for a handful of seeds and k in 1,2",
 ["aes.pyx", "speck128.pyx", "philox.pyx", "threefry.pyx", "pcg32.pyx", "pcg64.pyx", "lxm.pyx", "squares.pyx", "xoroshiro128.pyx", "xorshift1024.pyx", "xoshiro256.pyx", "xoshiro512.pyx", "mt19937.pyx", "sfmt.pyx", "dsfmt.pyx",
  "src/xoroshiro128/xoroshiro128.c", "src/xorshift1024/xorshift1024.c", "src/xoshiro256/xoshiro256.c", "src/xoshiro512/xoshiro512.c", "src/lxm/lxm.c", "src/mt19937/mt19937-jump.c", "src/sfmt/sfmt-jump.c", "src/dsfmt/dSFMT-jump.c"],
 [("jump_inplace / jump / jumped methods", "common.pyx"), ("xoroshiro128_jump", "src/xoroshiro128/xoroshiro128.c"), ("xoshiro256_jump", "src/xoshiro256/xoshiro256.c"), ("xoshiro512_jump", "src/xoshiro512/xoshiro512.c"), ("xorshift1024_jump", "src/xorshift1024/xorshift1024.c"), ("lxm_jump", "src/lxm/lxm.c"), ("mt19937_jump_n", "src/mt19937/mt19937-jump.c"), ("SFMT_jump", "src/sfmt/sfmt-jump.c"), ("dSFMT_jump", "src/dsfmt/dSFMT-jump.c")],
 observe=["bg.jump", "bg.jumped", "bg.state"])

prop("C04", "A seeded stream depends only on the seed, never on history",
 "Constructing a generator twice with the same seed (or the same key and counter) gives identical states, and reseeding an instance with a seed puts it into exactly the state of a freshly constructed instance with that seed, whatever had been drawn, buffered or assigned before. No part of a seeded state is left uninitialised.",
 ["inputs", "histories"], "every generator; every seed material; every prior internal state of the instance being reseeded",
 "tests reseed instances that are at a block boundary or compare only the first few draws of one seed; stale buffers and uninitialised fields only show from particular histories",
 ["common.pyx"] + ALLPYX,
 [("seed / _seed_from_seq / _reset_state_variables", "common.pyx"), ("*_seed and *_set_seed functions", "src/*/*.c")],
 observe=["bg.seed", "bg.state", "bg.random_raw"])

prop("C05", "Mixed 32-bit and 64-bit draws neither lose nor repeat words",
 "For every bit generator, 32-bit draws follow the documented rule from the 64-bit (or native-width) stream: a 64-bit generator hands out the two halves of one output in its fixed order and buffers the second, 32-bit generators build a 64-bit draw from two consecutive 32-bit draws. A 64-bit or double draw never consumes or alters a buffered half, and seed, advance and jump discard it.",
 ["inputs", "histories"], "every generator and state, every sequence of 32-bit, 64-bit and double draws up to the stated length",
 "tests draw long homogeneous runs; interleavings of widths, and operations with a half word pending, are sampled at one or two points",
 ["common.pyx"] + ALLPYX,
 [("has_uint32/uinteger buffer", "src/*/*.h"), ("next_uint32/next_uint64/next_double wiring", "common.pyx")],
 observe=["bg.ctypes.next_uint32", "bg.ctypes.next_uint64", "bg.state"])

prop("C06", "Doubles are exact images of the raw bits and lie in [0, 1)",
 "Every double drawn from any bit generator lies in [0,1) and is exactly the top 53 bits of one 64-bit output times 2^-53 (for MT19937 and other 32-bit-word generators the documented two-word combination; for DSFMT the documented 52-bit mantissa form). ExtendedGenerator.random has the corresponding exact form for float32 and long double, never returns 1.0, and consumes exactly one underlying value per number.",
 ["inputs"], "every generator and every raw output word (2^64 values), each output type",
 "boundary words such as all ones occur with probability 2^-53 and are never drawn by tests",
 ["common.pxd", "generator.pyx", "mt19937.pyx", "dsfmt.pyx", "src/distributions/rg-distributions.c", "src/mt19937/mt19937.h", "src/dsfmt/dsfmt.h"] + [f for f in ALLPYX if f not in ("mt19937.pyx", "dsfmt.pyx")],
 [("uint64_to_double", "common.pxd"), ("random_long_double_fill", "src/distributions/rg-distributions.c"), ("dsfmt_next_double", "src/dsfmt/dsfmt.h")],
 observe=["bg.ctypes.next_double", "ExtendedGenerator.random"])

prop("C07", "Each generator implements its published algorithm from every state",
 "For every internal state, the outputs and the successor state of each generator are those of its published algorithm (AES-CTR, ChaCha, SPECK-CTR, Philox, ThreeFry, HC-128, EFIIX64, JSF, LXM, MT19937, MT64, SFMT, DSFMT, PCG32, PCG64 XSL-RR and DXSM, LCG128Mix with every output function, Romu, SFC64, Squares, Tyche, xoroshiro128+/++, xorshift1024*, xoshiro256**, xoshiro512**), for every supported word size, round count and variant. Documented parameters (rounds, multiplier, output function, dxsm multiplier) select exactly the documented variant.",
 ["inputs", "configurations"], "every state value; every documented variant/parameter value",
 "tests compare 1000 outputs for two seeds per variant with recorded data; wrong behaviour at rare states (carries, counter overflow, table index coincidences) and untested parameter combinations are not reached",
 ["src/*/*.c", "src/*/*.h"] + ALLPYX,
 [("*_next64 / *_next32 / block functions", "src/*/*.h")],
 observe=["bg.random_raw", "bg.state"])

prop("C08", "SIMD and portable implementations give identical streams",
 "Wherever a generator has both an accelerated and a portable implementation (AES-NI and software AES, SSE and scalar ChaCha, SPECK, SFMT and DSFMT; native and emulated 128-bit arithmetic in PCG), both compute the same outputs and successor states for every key, counter and state, so the stream never depends on the machine or on switching use_aesni/use_sse41 or similar options.",
 ["inputs", "configurations"], "every key, counter, state; both implementations of each generator",
 "a test machine exercises one implementation or compares both on a few seeds",
 ["src/aesctr/aesctr.c", "src/aesctr/aesctr.h", "src/aesctr/softaes.h", "src/chacha/chacha.c", "src/chacha/chacha.h", "src/speck-128/speck-128.c", "src/speck-128/speck-128.h", "src/speck-128/speck-128-sse.h", "src/sfmt/sfmt.c", "src/sfmt/sfmt-sse2.h", "src/dsfmt/dsfmt.c", "src/pcg64/pcg64-common.h", "src/pcg64/pcg64-v2.h"],
 [("aesctr_use_aesni, aesctr_r/aesctr_r_sw", "src/aesctr/aesctr.h"), ("chacha_use_simd, chacha_core(_ssse3)", "src/chacha/chacha.h"), ("speck_use_sse41", "src/speck-128/speck-128.h"), ("PCG_EMULATED_128BIT_MATH", "src/pcg64/pcg64-common.h")],
 observe=["bg.use_aesni", "bg.use_simd", "bg.use_sse41", "bg.random_raw"])

prop("C09", "No seed leads to a degenerate or invalid generator state",
 "Whatever seed, seed sequence, key, increment or stream a user supplies, seeding never leaves a generator in a state its algorithm forbids: LCG increments are odd, linear generators are never all zero where the seeding procedure protects against it, SFMT and DSFMT satisfy the period certification, MT19937 keeps its guard bit, and positions and flags are in range.",
 ["inputs"], "every value of the seed material (all words the seed sequence can deliver)",
 "the forbidden states are reached for a few seed values out of 2^64 or more",
 ["lxm.pyx", "pcg32.pyx", "pcg64.pyx", "sfmt.pyx", "dsfmt.pyx", "mt19937.pyx", "xoroshiro128.pyx", "xoshiro256.pyx", "xoshiro512.pyx", "xorshift1024.pyx", "romu.pyx", "efiix64.pyx", "mt64.pyx", "sfc.pyx", "squares.pyx", "src/sfmt/sfmt.c", "src/dsfmt/dsfmt.c", "src/lxm/lxm.c", "src/mt19937/mt19937.c", "src/mt64/mt64.c"],
 [("period_certification", "src/sfmt/sfmt.c"), ("period certification", "src/dsfmt/dsfmt.c"), ("increment |= 1", "src/pcg64/pcg64-v2.c")],
 observe=["bg.state", "bg.seed"])

prop("C10", "Native code never leaves its state or invokes undefined behaviour",
 "From every valid state, every draw, seed, advance, jump and state conversion reads and writes only inside the generator's own state and buffers, uses no uninitialised memory, and performs no shift, division or signed arithmetic the C language leaves undefined; each operation leaves buffer positions and flags valid for the next one.",
 ["inputs", "histories"], "every valid pre-state and argument; one operation is an inductive step, so histories of any length",
 "tests run without sanitizers and from seeded states only; an index that escapes its buffer for one state in 2^32 goes unnoticed",
 ["src/*/*.c", "src/*/*.h"] + ALLPYX,
 [("buffer index checks in next functions", "src/*/*.h"), ("array construction in state setters", "common.pyx")],
 observe=["valgrind/sanitizer build", "bg.state"])

prop("C11", "Keys, counters and state words are taken exactly or refused",
 "Integers and arrays given as key, counter, increment, stream, offset or state reach the generator bit for bit in the documented word order, for every value in the documented range; values that are negative or too large are refused with ValueError (or another exception) instead of being truncated or wrapped. The conversions between Python integers and word arrays invert each other.",
 ["inputs"], "every integer value and every word-array value at each documented width",
 "tests pass a few constants and a few invalid values",
 ["common.pyx", "aes.pyx", "chacha.pyx", "hc128.pyx", "philox.pyx", "threefry.pyx", "speck128.pyx", "pcg32.pyx", "pcg64.pyx", "squares.pyx"],
 [("object_to_int", "common.pyx"), ("int_to_array", "common.pyx"), ("wrap_int", "common.pyx"), ("view_little_endian", "common.pyx"), ("check_state_array", "common.pyx")],
 observe=["bg = Class(key=..., counter=...); bg.state"])

prop("C12", "SeedSequence is a faithful, complete function of its entropy",
 "For every entropy value, spawn key and pool size, SeedSequence.generate_state returns the words the documented hashing algorithm (O'Neill's seed_seq_fe as in NumPy) defines, is repeatable, and its 64-bit words are the little-endian pairs of its 32-bit words. Children produced by spawn carry pairwise distinct spawn keys across any sequence of spawn calls, and every bit of entropy and of the spawn key takes part.",
 ["inputs", "histories"], "every entropy word value for bounded lengths, every spawn history",
 "tests compare recorded outputs for a few entropies",
 ["_seed_sequence.pyx", "_seed_sequence.pxd"],
 [("hashmix/mix", "_seed_sequence.pyx"), ("mix_entropy", "_seed_sequence.pyx"), ("generate_state", "_seed_sequence.pyx"), ("spawn", "_seed_sequence.pyx")],
 observe=["SeedSequence.generate_state", "SeedSequence.spawn"])

prop("C13", "A hardware entropy failure is reported, never papered over",
 "When the RDRAND instruction fails, for any pattern of successes and failures across retries, every affected command raises and no stale, partial or repeated hardware value is returned as random output; as long as the instruction succeeds within the retry limit, each hardware word is used exactly once and in order.",
 ["fault_sequences", "histories"], "every success/failure sequence of the instruction up to the stated length, every position in the buffer, every retry limit",
 "the instruction practically never fails on the test machine",
 ["rdrand.pyx", "src/rdrand/rdrand.h", "src/rdrand/rdrand.c"],
 [("rdrand_next64 / fill buffer / status", "src/rdrand/rdrand.h"), ("raise_error", "rdrand.pyx")],
 observe=["RDRAND.random_raw", "Generator(RDRAND()).random", "RDRAND.state"])

prop("C14", "Bulk draws consume exactly the requested number of values in order",
 "random_raw and ExtendedGenerator.uintegers/random return, for every shape, exactly prod(shape) consecutive values of the stream in C order, identical to the same number of single draws, and leave the generator at the position after exactly that many draws; output=False discards exactly that many. An out= array is filled completely or refused.",
 ["inputs", "histories"], "every size argument (None, int, tuple including zero-length axes) within bounds, every generator width",
 "tests check one or two shapes",
 ["common.pyx", "generator.pyx"],
 [("random_raw", "common.pyx"), ("uintegers / random", "generator.pyx")],
 observe=["bg.random_raw", "ExtendedGenerator.uintegers", "ExtendedGenerator.random"])

prop("C15", "Squares keys obey their construction rules for every entropy",
 "Every key produced by generate_keys, and every key a Squares generator derives from a seed, has the documented structure: it is odd, its digits satisfy the documented distinctness rules, and the keys of one call are pairwise distinct; the same seed gives the same keys. No random word that was not drawn from the seed sequence ever influences a key.",
 ["inputs"], "every random word delivered during key construction, bounded number of keys",
 "key construction consumes a random number of words; refills and rejections at particular positions are rare",
 ["squares.pyx", "src/squares/squares.h"],
 [("_SequenceSampler", "squares.pyx"), ("generate_keys", "squares.pyx")],
 observe=["randomgen.squares.generate_keys", "Squares(seed).state"])

prop("C16", "SFC64 Weyl increments honour the requested bit counts",
 "SFC64.weyl_increments returns distinct odd increments whose number of set bits lies between min_bits and max_bits, and an SFC64 built with w and k (or weyl/bits options) uses exactly that increment, so its counter visits every value with full period.",
 ["inputs"], "every random word consumed by the construction, all bit ranges within bounds",
 "the outcome for the extreme values of the internal random draws is never sampled",
 ["sfc.pyx", "src/sfc/sfc.h"],
 [("weyl_increments / generate_bits / choosek", "sfc.pyx"), ("sfc_next", "src/sfc/sfc.h")],
 observe=["SFC64.weyl_increments", "SFC64.state"])

prop("C17", "User-defined generators deliver the values their functions return",
 "A UserBitGenerator built from a 32- or 64-bit function produces 64-bit, 32-bit and double draws that are the documented combination of successive return values of that function, each return value used exactly once and in order, and nothing else.",
 ["inputs", "histories"], "every return value of the user function; every draw sequence up to the bound",
 "tests wrap one or two generators and compare a few draws",
 ["wrapper.pyx"],
 [("raw_32_to_64, raw_64_to_32, doubles", "wrapper.pyx")],
 observe=["UserBitGenerator.random_raw"])

prop("C18", "System entropy is complete or an error, with no resource leak",
 "When reading operating-system entropy, a call reports success only if every requested byte came from the source; short reads, interrupts, open failures and allocation failures lead to failure or the documented fallback, never to uninitialised bytes, and no file descriptor is left open. seed_by_array expands every seed word of the input as documented.",
 ["fault_sequences", "inputs"], "every sequence of results of open/read up to the stated length, every request size up to the bound; every seed word",
 "the tests run on a machine where /dev/urandom always succeeds",
 ["entropy.pyx", "src/entropy/entropy.c", "src/splitmix64/splitmix64.h"],
 [("entropy_getbytes", "src/entropy/entropy.c"), ("entropy_fill", "src/entropy/entropy.c"), ("seed_by_array", "entropy.pyx")],
 observe=["randomgen.entropy.random_entropy", "randomgen.entropy.seed_by_array"])

prop("C19", "Every shared-generator draw happens under the generator's lock",
 "Every public operation that draws from a bit generator through this package (random_raw, ExtendedGenerator methods, jumping, advancing and benchmarking helpers documented as thread-safe) holds that bit generator's lock while native draws run, so concurrent callers never interleave inside one draw; the lock is released on every exit including exceptions.",
 ["schedules", "inputs"], "every control path of the public drawing methods, for every argument combination within bounds",
 "races on the native state are not reproducible in unit tests",
 ["common.pyx", "generator.pyx"],
 [("with lock, nogil", "common.pyx"), ("with self.lock", "generator.pyx")],
 observe=["bg.lock"])

prop("C20", "Stepping never merges two different states",
 "For every generator whose published state transition is a permutation, two different states of one stream never have the same successor, so the sequence cannot collapse into a shorter cycle or lose streams; distinct keys, increments or streams stay distinct after seeding and stepping.",
 ["inputs"], "all pairs of states",
 "a collision needs two related states out of 2^64 or more; recorded outputs do not show it",
 ["src/*/*.h", "src/*/*.c"],
 [("*_next64 state update", "src/*/*.h")],
 observe=["bg.state before/after a draw"])

prop("C21", "Structured samplers address and transform exactly their inputs",
 "ExtendedGenerator's structured samplers (wishart, standard_wishart, complex_normal, multivariate_complex_normal, multivariate_normal) place each underlying draw in the documented position, honour size and broadcasting for every shape combination, and apply the documented linear transformation, so that the requested covariance or relation structure results; parameters outside the documented domain are refused.",
 ["inputs"], "all shapes within bounds, symbolic draws and parameters (as exact rationals/reals for the linear structure)",
 "tests check shapes and a few moments",
 ["generator.pyx", "broadcasting.pyx", "src/distributions/rg-distributions.c"],
 [("wishart", "generator.pyx"), ("standard_wishart", "generator.pyx"), ("complex_normal", "generator.pyx"), ("broadcast_shape", "broadcasting.pyx")],
 observe=["ExtendedGenerator.*"])

prop("C22", "Aligned storage is aligned, in bounds and released exactly once",
 "Generator state that needs alignment is always placed at an address that satisfies the alignment and lies wholly inside its allocation, for every address the system allocator returns; reallocation keeps the contents, releasing returns exactly the originally allocated block, and an allocation failure is reported rather than used.",
 ["inputs", "fault_sequences"], "every allocator result (address or failure), every size up to the bound",
 "the system allocator returns a few kinds of addresses and never fails in tests",
 ["src/aligned_malloc/aligned_malloc.c", "src/aligned_malloc/aligned_malloc.h", "aes.pyx", "chacha.pyx", "dsfmt.pyx", "sfmt.pyx", "speck128.pyx"],
 [("PyArray_malloc_aligned and friends", "src/aligned_malloc/aligned_malloc.h")],
 observe=["constructor of AESCounter, ChaCha, DSFMT, SFMT, SPECK128"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
