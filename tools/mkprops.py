#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe, state=None, hook=None):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text},
        "why_tests_cant": why,
        "anchors": {"files": files, "state": state or [],
                    "mechanism": [{"name": n, "where": w} for n, w in mechanism],
                    "observe_at": observe, "hook_needed": hook}})

L = "src/lyra2.rs"; M = "src/lyra2mod/mod.rs"; CU = "src/cubehash/mod.rs"; B = "src/bmw/mod.rs"

prop("C01", "Lyra2 keys follow the algorithm for every cost setting",
     "For every accepted time cost T >= 1, row count R >= 3 (power of two or not) and column count C >= 1, and every password and salt that fit the matrix, the key is the one defined by Lyra2 over the one-round/12-round BLAKE2b sponge: absorb the padded input, fill the R x C matrix, make T wandering passes, absorb the first cell of the last revisited row, squeeze. No cost parameter is ignored, truncated, capped or swapped with another.",
     ["inputs", "configurations"],
     "all (k, pwd, salt, T, R, C) with T>=1, R>=3, C>=1 and padded input no larger than the matrix",
     "The unit tests evaluate six fixed calls, always with pwd == salt and T,R,C drawn from {(1,4,4),(1,3,4),(1,4,2),(1,8,8),(8,8,8)}; larger matrices, more passes, other row/column shapes and unequal inputs are never reached.",
     [L], [("lyra2()", L), ("round_lyra / blake2b_lyra / reduced_blake2b_lyra", L)],
     ["return value of lyra2::lyra2::lyra2"],
     [{"name": "state", "meaning": "sponge, 16 words", "where": L}, {"name": "whole_matrix", "meaning": "R x C x 12 words", "where": L}])

prop("C02", "Password, salt and all six parameters are bound into the key",
     "The derived key depends on every 8-byte word of the password, then every 8-byte word of the salt, in that order and each exactly once, and on the key length, both input lengths, time cost, rows and columns, all under an injective padding. Two accepted calls with word-aligned inputs that differ in any of these derive unrelated keys; moving bytes between password and salt, or swapping the two, is such a difference.",
     ["inputs"],
     "all pairs of accepted argument tuples with password and salt lengths multiples of 8 (the effect of the last len%8 bytes is a recorded finding)",
     "Every existing test passes the same bytes as password and salt, with three lengths in total, so order, concatenation, length encoding and block boundaries are not exercised.",
     [L, "src/utils.rs"], [("basil and 10*1 padding", L), ("read_u64_le", "src/utils.rs"), ("absorb_block_blake2_safe", L)],
     ["return value of lyra2::lyra2::lyra2"],
     [{"name": "n_blocks_input", "meaning": "64-byte blocks absorbed", "where": L}])

prop("C03", "A key has exactly the requested length, for every length",
     "A call that asks for k key bytes returns exactly k bytes, for every k >= 0, including lengths that are not multiples of 8 or 96 and lengths beyond one 96-byte sponge block. Byte i of the key is byte i mod 96 of the sponge's rate after floor(i/96) further full permutations.",
     ["inputs"], "every requested key length k, with every accepted combination of the other arguments",
     "Tests request 16, 32 and 48 bytes only; lengths of 97 bytes and more aborted with a panic in the original tree although all tests passed.",
     [L], [("squeeze()", L)], ["return value of lyra2::lyra2::lyra2"])

prop("C04", "Lyra2 accepts exactly its documented domain and always terminates",
     "lyra2 panics when the time cost is 0, when there are fewer than 3 rows, when there are no columns, or when the padded password, salt and parameters do not fit in the matrix; it never returns a key in those cases, nor when the size of the matrix overflows the machine's integers. For every other argument tuple whose matrix can be allocated it terminates and returns a key without panicking.",
     ["inputs", "configurations"], "all argument tuples, on both sides of every limit of the domain (T, R, C, |pwd|+|salt| against 96*R*C bytes)",
     "No test calls the function outside the domain or at its edge; termination of the wandering loop for every row count is a claim over all R.",
     [L], [("parameter check", L), ("slice bounds on whole_matrix", L), ("row = (row + step) & (n_rows - 1); break at 0", L)],
     ["return value or panic of lyra2::lyra2::lyra2"])

prop("C05", "Lyra2RE digest is BLAKE-Keccak-Lyra2(1,8,8)-Skein-Groestl of the input",
     "For every byte string of every length, lyra2re::sum returns Groestl-256(Skein-512-256(Lyra2_{1,8,8}(Keccak-256(BLAKE-256(input))))), where Lyra2 takes the 32-byte value as both password and salt and yields 32 bytes.",
     ["inputs"], "all byte strings", "Three inputs of 3, 12 and 36 bytes are tested; no block header (80 bytes), empty input, multi-block or boundary length.",
     ["src/lyra2re.rs", L], [("sum()", "src/lyra2re.rs")], ["return value of lyra2::lyra2re::sum"])

prop("C06", "Lyra2REv2 digest is the seven-stage chain of the input",
     "For every byte string of every length, lyra2rev2::sum returns BMW-256(CubeHash-256(Skein-512-256(Lyra2_{1,4,4}(CubeHash-256(Keccak-256(BLAKE-256(input))))))), where Lyra2 takes the 32-byte value as both password and salt and yields 32 bytes.",
     ["inputs"], "all byte strings", "Three inputs of 3, 12 and 36 bytes are tested; no block header (80 bytes), empty input, multi-block or boundary length.",
     ["src/lyra2rev2.rs", L, CU, B], [("sum()", "src/lyra2rev2.rs")], ["return value of lyra2::lyra2rev2::sum"])

prop("C07", "Lyra2REv3 digest is the five-stage chain of the input",
     "For every byte string of every length, lyra2rev3::sum returns BMW-256(L(CubeHash-256(L(BLAKE-256(input))))), where L is the modified Lyra2_{1,4,4} with the 32-byte value as both password and salt: before each wandering row the running index is replaced by the sponge word it selects (mod 16), and the revisited row is taken from the sponge word the new index selects.",
     ["inputs"], "all byte strings", "Three inputs are tested; the data-dependent word and row selection takes 2^(4+2) combinations per step, of which the tests see a handful.",
     ["src/lyra2rev3.rs", M, CU, B], [("sum()", "src/lyra2rev3.rs"), ("lyra2mod()", M)], ["return value of lyra2::lyra2rev3::sum"])

prop("C08", "Lyra2Z digest is Lyra2(8,8,8) of BLAKE-256 of the input",
     "For every byte string of every length, lyra2z::sum returns the 32-byte Lyra2_{8,8,8} key with BLAKE-256(input) as both password and salt.",
     ["inputs"], "all byte strings", "Three inputs of 3, 12 and 36 bytes are tested.",
     ["src/lyra2z.rs", L], [("sum()", "src/lyra2z.rs")], ["return value of lyra2::lyra2z::sum"])

prop("C09", "Results do not depend on the history of earlier calls",
     "The result of every public function (value or panic) is a function of its arguments alone: whatever sequence of calls of any of the functions, with whatever arguments and including calls that panicked, came before in the process or the thread, a call gives the same outcome as it does as the first call of a fresh process.",
     ["histories"], "all finite sequences of public calls, including panicking calls that are caught",
     "Each test makes at most three calls of a single function and none panics; reuse of buffers, caches or poisoned state would only show in particular sequences.",
     ["src/lib.rs", L, M, CU, B, "src/lyra2re.rs", "src/lyra2rev2.rs", "src/lyra2rev3.rs", "src/lyra2z.rs"],
     [("all working state is local to the call", L), ("fresh, zeroed whole_matrix per call", L)], ["outcome of each call in a history, compared with the first-call outcome"])

prop("C10", "Concurrent calls do not influence each other",
     "When any number of threads call the public functions at the same time, each call gives the outcome it gives when it runs alone, on every schedule.",
     ["schedules"], "all interleavings of calls of the public functions on several threads",
     "The test harness never runs two calls of the same function with different arguments at once and checks no interleaving.",
     ["src/lib.rs", L, M, CU, B], [("no shared mutable state", "src/lib.rs")], ["outcome of each call made from concurrent threads"])

prop("C11", "CubeHash and BMW stages are the standard 256-bit hashes",
     "The CubeHash stage computes CubeHash16/32-256 and the BMW stage computes BMW-256 (Blue Midnight Wish, tweaked round-2 version), bit-exactly, for every 32-byte block they are given, whatever words and carries occur inside; the BMW stage does so for every message of up to 55 bytes.",
     ["inputs"], "all 2^256 32-byte blocks; for BMW all messages of 0..55 bytes",
     "One CubeHash input and three BMW inputs are tested, none of which is 32 bytes for BMW; structured blocks (all zeros, all ones, zero prefixes or suffixes) are never tried.",
     [CU, B, "src/utils.rs"], [("sixteen_rounds(), input_block()", CU), ("compress(), padding in sum()", B), ("read_u32_le", "src/utils.rs")],
     ["guarded hook verif_hooks::cubehash256 / bmw256", "lyra2rev2::sum and lyra2rev3::sum"], hook="verif_hooks (cfg lyra2_verif): calls the private CubeHash, BMW and modified-Lyra2 functions")

prop("C12", "Coin digests are total: any input gives 32 bytes",
     "lyra2re, lyra2rev2, lyra2rev3 and lyra2z digests accept every byte string, from empty to megabytes, and return exactly 32 bytes without panicking; inputs that differ in any byte or in length alone (for instance a trailing zero byte) get different digests, so the whole input is hashed.",
     ["inputs"], "all byte strings, all lengths; all pairs that differ in one position or by trailing zero bytes",
     "Tests use three lengths below one BLAKE-256 block.",
     ["src/lyra2re.rs", "src/lyra2rev2.rs", "src/lyra2rev3.rs", "src/lyra2z.rs"], [("BLAKE-256 of the whole input first", "src/lyra2z.rs")],
     ["return value of the four sum functions"])

prop("C13", "Every row is filled and revisited on the Lyra2 schedule",
     "Filling visits rows in order, and each new row also revisits one earlier row chosen by the doubling window schedule (step window+gap, gap alternating +1/-1), so that every row of a window is revisited exactly once before it doubles; each wandering pass starts at row 0 and steps by R/2-1 on odd passes and by -1 on even passes under the mask R-1 until it returns to row 0, visiting every row exactly once when R is a power of two. The key reflects this schedule for every R and T, so no row can be skipped or visited out of turn.",
     ["configurations", "inputs"], "all R >= 3 and T >= 1; all pseudo-random row choices",
     "Tests use R in {3,4,8}; the window doubles a third time only for R > 8, odd/even pass handling beyond T=8 and row counts that are not powers of two (other than 3) are never seen.",
     [L, M], [("rowa = (rowa + step) & (window - 1); step = window + gap", L), ("step = n_rows/2 - 1 or -1; row = (row + step) & (n_rows - 1)", L)],
     ["return value of lyra2::lyra2::lyra2 over a sweep of R and T"])

prop("C14", "One-argument functions agree with the general key derivation",
     "lyra2::sum(x) equals lyra2 with key length 32, x as both password and salt, T=1, R=4 and C=4, for every x, including the inputs for which the general call panics (more than 743 bytes), where it panics too.",
     ["inputs"], "all byte strings x", "Checked for one input ('abc').",
     [L], [("sum()", L)], ["return values of lyra2::lyra2::sum and lyra2::lyra2::lyra2"])

prop("C15", "Outcomes are the same with and without overflow checks",
     "Every public call gives the same value, or panics alike, whether the crate is built with or without debug assertions and integer-overflow checks and at whatever optimisation level: arithmetic on words wraps by definition, and nothing else overflows.",
     ["configurations", "inputs"], "all accepted arguments, under the checked (dev) and unchecked (release) build configurations",
     "The suite is run in the dev profile only, on a few inputs; miners and nodes run release builds.",
     [L, M, CU, B, "src/utils.rs"], [("wrapping_add / wrapping_sub", B)], ["outcomes of the same calls in both builds"])

prop("C16", "The modified Lyra2 of REv3 follows its definition for all parameters",
     "The modified Lyra2 behind Lyra2REv3 is Lyra2 in which the revisited row of each wandering step comes from a sponge word chosen by a running index (initially 0, replaced before each use by the low four bits of the sponge word it selects, and carried across rows and passes); for every k, password, salt, T >= 1, R >= 3 and C >= 1 that fit, its key is the one so defined, and out-of-domain arguments panic.",
     ["inputs", "configurations"], "all argument tuples of the modified Lyra2",
     "Three calls with pwd == salt and T = 1 are tested, one of which gives the same key as plain Lyra2, so carrying the index across passes is never exercised.",
     [M], [("index = state[index & 0xf]; rowa = state[index & 0xf] & (n_rows - 1)", M)],
     ["guarded hook verif_hooks::lyra2mod", "lyra2rev3::sum"], hook="verif_hooks (cfg lyra2_verif)")

ALL = ["src/lib.rs", L, M, CU, B, "src/lyra2re.rs", "src/lyra2rev2.rs", "src/lyra2rev3.rs", "src/lyra2z.rs"]
prop("C17", "Memory use is proportionate to the call and temporary",
     "While a call runs it holds, on the heap and on the stack together, at most a small multiple (8 times) of what its arguments call for (the R x C matrix of 96-byte cells, the inputs and the key) plus 64 KiB, whatever the time cost; when it has ended, by value or by panic, everything but the returned bytes is given back. Whatever sequence of calls a process makes, on whatever threads and with however many rejected calls among them, what stays allocated between calls never exceeds 8 times the largest such need so far plus 64 KiB.",
     ["inputs", "histories"], "all calls of the public functions with matrices that fit in memory; all finite histories of them, including panicking calls that are caught",
     "No test looks at memory; a leak, a cache without limit or a copy per pass only shows in long runs or large calls, with all values still right.",
     ALL, [("whole_matrix is owned by the call", L), ("absorbed blocks are copies that are dropped", L)],
     ["heap in use during and after calls, by a counting global allocator; depth of the stack a call used"])

prop("C18", "A call acts on nothing and depends on nothing but its arguments",
     "A public call computes and does nothing else: it writes nothing to standard output, standard error, files or sockets, reads no file, starts no process, leaves no thread behind, and leaves environment variables, working directory and the program's panic hook as they were (a rejected call only panics). And its outcome is the same in every surrounding: whatever environment variables are set, whatever the clock says, wherever its arguments lie in memory, whatever bytes freshly allocated memory holds, and however many processors there are.",
     ["inputs", "configurations"], "all calls of the public functions; all settings of the process environment, clock, heap contents and addresses",
     "Tests look at return values in one environment; a message, a hidden switch or a read of uninitialised or misaligned memory leaves them green.",
     ALL, [("safe Rust on owned data, no std::env, std::io, std::fs, std::time", "src/lib.rs")],
     ["system calls between the markers around a call", "outcome of the same call in different surroundings"])

prop("C19", "Outcomes are the same on every kind of machine",
     "Every public call gives the same outcome (the same bytes, or a panic) on machines of either byte order and with 32-bit or 64-bit addresses, whenever the machine can hold the matrix, the inputs and the key; arguments that a machine cannot address (key lengths, rows or columns beyond its address space) never come back as a key there, and no argument is cut to the machine's word: a time cost of 2^32 or more is honoured on a 32-bit machine too.",
     ["inputs", "configurations"], "all calls of the public functions on little- and big-endian targets with 32 and 64 bits",
     "The suite runs on one 64-bit little-endian machine; byte-order and usize-width assumptions cannot show there, yet digests have to agree across all nodes of a network.",
     ALL, [("read_u64_le, read_u32_le, to_le_bytes", "src/utils.rs"), ("u64 counters; conversions to usize only for indices", L)],
     ["outcomes of the same call on wasm32 (node), s390x and powerpc (Miri)"])

prop("C20", "Calls stay inside their own memory and never race",
     "Whatever the arguments and on every schedule, a call reads only its arguments, constants and memory it has written itself, and writes only its own working memory and its result: every row and column it computes lies inside the matrix, no cell is read before it was written, nothing before or behind the inputs is looked at, and no word is shared with a concurrent call without synchronisation. This holds for rejected calls as well, and whether or not such an access would change the result.",
     ["inputs", "schedules", "configurations"], "all argument tuples of all public functions, accepted and rejected, at any cost setting; all interleavings of calls on several threads",
     "Tests compare values: an access outside of the matrix or the input, a use of stale heap memory or a data race that happens not to change the few tested digests is invisible to them.",
     ALL, [("index arithmetic on whole_matrix, checked slices", L), ("all working state is local to the call", L), ("no unsafe code, no statics", "src/lib.rs")],
     ["reports of AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri while calls run"],
     [{"name": "row, prev, rowa, column", "meaning": "cell that is touched", "where": L}])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
