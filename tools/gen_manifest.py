#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "deterministic simulation with fault injection: "
C = {
 "C01": ("seeded fragmentation schedules of cipher streams against an incremental reference model", "Every call's output, byte count and reported IV is compared with an independent model of the mode; splits, buffer offsets and alignment, in-place use, padding, re-keying, clock jumps and CPU feature changes are all seeded. Trusts OpenSSL, and for DES, SEED and others own reference code, for the block transforms."),
 "C02": ("sender, lossy re-fragmenting channel and receiver simulated together, with bit flips, cuts, duplication and reordering of ciphertext", "Round trip equality, prefix and length bounds after channel damage, memory safety of the receiver (ASan build)."),
 "C03": ("seeded update schedules, context forks and re-initialisations against reference digests, including streams beyond 2^29 and 2^32 bytes", "Message lengths beyond 4 GiB plus a few hundred bytes are not explored."),
 "C04": ("seeded preemptive scheduling of several simulated threads at basic-block edges inside the library, compared with serial executions", "Preemption at every instrumented basic-block edge; weak memory effects and preemption inside a basic block are not simulated."),
 "C05": ("the same plans run with processor features hidden and offered, in builds with 64- and 32-bit words, large and small tables, unrolled and looped code, and compared run by run", "Covers x86-64 paths only; ARM code and MSVC assembly cannot run here."),
 "C06": ("allocation-failure injection at every enumerated and at random allocation points of every public call, judged by reference results", "Single failures of sampled operations are enumerated; multiple failures are sampled."),
 "C07": ("fault injection (allocation, entropy) with exact accounting of heap blocks and descriptors and retry of the failed call", "Ownership is tracked for every block and descriptor of the library; user-owned buffers are the simulator's."),
 "C08": ("simulated entropy device and clock: missing device, descriptor 0, EINTR, short reads, EOF, stuck entropy, and per-byte influence of the delivered entropy", "Influence is measured by flipping delivered bits and re-running; that SHA-based mixing is strong is assumed."),
 "C09": ("seeded draw schedules replayed in differing environments (clock, entropy, CPU features, allocator contents, neighbours)", "Stream identity is judged against the library's own one-request stream; no published vector exists for this generator."),
 "C10": ("key generation under seeded entropy, clock and forced generator outputs, checked by an integer model", "Primality of results is judged by GMP (30 rounds). Sizes up to 512 bits in the quick tier, 2048 in the thorough tier."),
 "C11": ("step-bounded simulation: progress within a bounded number of library steps for generation, primality and imports under forced entropy, stored-data corruption and failures", "Bounds are several times the largest measured cost; 'hang' means the bound was exceeded."),
 "C12": ("two simulated parties exchanging encryptions and signatures over a tampering channel, with allocation failures during verification", "Judged by GMP modular exponentiation."),
 "C13": ("simulated storage with torn, truncated, flipped, extended, duplicated and garbage key files", "Importing damaged data is judged for memory safety, termination and later use; intact encodings in 40 styles must import exactly."),
 "C14": ("export into seeded buffer capacities with allocation failures, compared with an independent DER encoder", "Red zones around every buffer in all builds, ASan in one."),
 "C15": ("primality questions and prime generation under seeded and forced entropy, with failures and cancellation at every callback", "A false 'prime' is judged by repetition with fresh entropy because single errors are within the algorithm's bound."),
 "C16": ("twin executions with different secrets and inspection of every block at the moment it is released, in the build flags the library ships with", "Heap blocks only; registers and stack are out of scope."),
 "C17": ("crash at seeded block boundaries with only key and IV (or a byte copy of the context) surviving, restart on a machine with other features", "Checkpoints at block boundaries for block ciphers; anywhere for digests and RC4."),
 "C18": ("keys altered in simulated storage, component by component, verified under entropy and allocation failures", "Soundness of a key is judged by an integer model of the relations."),
 "C19": ("histories of abandoned, finished and re-initialised streams against fresh model contexts", "Includes direction changes, error returns and key, mode or algorithm changes in one context."),
}
NA = {
 "C30": "Not a question for this technique: whether a single-block transform equals its published table has no concurrency, time, I/O, fault or history in it; the reference models of C01 and C03 compare it in passing (which is how the DES S-box finding was made), but fixed published vectors decide it.",
 "C31": "Pure functions of their operands with no schedule, clock, I/O or fault to simulate; big-number code is exercised through C05, C06, C10-C15 and C18, where results depend on such things, and judged there by GMP.",
 "C32": "The simulator controls time and therefore cannot observe real execution time or cache effects; the code makes no constant-time claim.",
}
m = {"version": 1, "setup_cmd": "python3 build.py", "hooks": {"guard": "none", "enable": "no hooks: references of the compiled objects to libc are redirected with objcopy; the shipped sources are unchanged", "source_commits": []},
     "checks": [{"property": p, "quick_cmd": "python3 run.py check %s --tier quick" % p, "thorough_cmd": "python3 run.py check %s --tier thorough" % p,
                 "technique": T + t, "level": "fault_enumeration" if p == "C06" else "exploration", "level_note": n} for p, (t, n) in C.items()],
     "not_applicable": [{"property": p, "reason": r} for p, r in NA.items()],
     "notes": "One seed is one exactly repeatable execution; failures are minimised and written to replay/*.json; python3 run.py replay FILE repeats one. DES has one listed finding (known_findings.txt)."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
