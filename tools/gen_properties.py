#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the long texts stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook)))

CIPH = ["src/cipher/block_cipher.c", "src/cipher/aes.c", "src/cipher/aes_x86.c", "src/cipher/des.c", "src/cipher/seed.c",
        "src/cipher/aria.c", "src/cipher/blowfish.c", "src/cipher/rc4.c"]
DIG = ["src/digest/md2.c", "src/digest/md4.c", "src/digest/md5.c", "src/digest/sha1.c", "src/digest/sha1_x86.c",
       "src/digest/sha2.c", "src/digest/sha2_x86.c", "src/digest/has160.c"]
RSA = ["src/pk/rsa.c", "src/pk/asn1.c", "src/com/montexpmod.c", "src/com/gcd.c", "src/com/bignumber.c"]

p("C01", "Streaming encryption and decryption do not depend on how the data is split",
  "For every cipher (AES, DES/3DES, SEED, ARIA, Blowfish, RC4), key, mode and IV, feeding a message to the encrypt or decrypt calls in any sequence of pieces yields, byte for byte and call for call, the ciphertext or plaintext the standard mode defines for the whole message: every call returns exactly the number of whole blocks that have become available, incomplete data is held back, and the reported IV is the chaining value at that point. The finishing call applies the requested padding (none: drop the incomplete tail, zero, PKCS7) and its result is likewise independent of the splitting.",
  ["schedules", "inputs", "histories"], "all ways a stream can be delivered in pieces (including empty and mid-block pieces), all ciphers/modes/paddings/keys/IVs, all histories of calls on one context",
  "Unit tests feed a few fixed vectors, nearly all in one or two aligned calls; they cannot sample the space of fragmentations, misalignments and call histories.",
  CIPH, [("partial-block buffer and per-mode chaining", "src/cipher/block_cipher.c RaBlockCipherEncrypt/Decrypt/*Final"), ("RC4 keystream position", "src/cipher/rc4.c _RaRc4")],
  [("bufferFilled/buffer", "held-back incomplete block", "struct RaBlockCipher"), ("iv", "chaining value", "struct RaBlockCipher")],
  ["Ra*Encrypt, Ra*EncryptFinal, Ra*Decrypt, Ra*DecryptFinal, Ra*SetIV, Ra*GetIV"])

p("C02", "Every encrypted stream decrypts back to the original over any channel splitting",
  "Whatever one party encrypts with any cipher, mode and padding, in any sequence of pieces, another party holding the same key and IV recovers exactly, whatever pieces the channel re-cuts the ciphertext into, provided the end of the ciphertext is handed to the finishing call: PKCS7 restores the exact length, zero padding restores the message followed only by fill zeros to the block boundary, no padding restores the whole-block prefix. When the channel flips bits or cuts the ciphertext the decryptor never crashes, never produces more bytes than it received, and bytes before the damaged region are still exact.",
  ["schedules", "inputs", "fault_sequences"], "all messages, keys, modes, paddings, sender splittings, channel re-splittings, and ciphertext corruptions/truncations in transit",
  "Tests round-trip a handful of fixed messages with fixed boundaries and never damage or re-cut the ciphertext.",
  CIPH, [("PKCS7/zero padding and stripping", "src/cipher/block_cipher.c RaBlockCipherEncryptFinal/RaBlockCipherDecryptFinal"), ("inverse key schedules", "Ra*Init in src/cipher/*.c")],
  (), ["lengths and bytes returned by Ra*Decrypt/Ra*DecryptFinal"])

p("C03", "Digests depend only on the bytes fed, not on how or when they are fed",
  "For every digest (MD2, MD4, MD5, SHA-1, SHA-224/256/384/512, SHA-512/224, SHA-512/256, HAS-160), the result equals the standard digest of the concatenated input however that input is cut into update calls, including empty pieces, misaligned buffers and streams of several gigabytes. A copied context continues independently of the original, and re-initialising a used or finished context starts a clean message.",
  ["schedules", "inputs", "histories"], "all fragmentations of all messages of any length (past every internal length-counter carry), all snapshot/re-init histories",
  "Tests hash short fixed strings, mostly in one call; no test crosses a length-counter carry or forks a context mid-stream.",
  DIG, [("block buffering and length counters", "Ra*Update in src/digest/*.c"), ("length padding", "Ra*Final in src/digest/*.c")],
  [("totalLen_l/h/hh", "length counter across carries", "src/include/racrypt_digest.h")], ["Ra*Final output"])

p("C04", "Independent objects never interfere, however their calls interleave",
  "Operations on distinct objects (cipher, digest, generator, key and number objects, each used by one thread at a time) give the same results as if each thread ran alone, for every preemptive interleaving of the threads, including preemption in the middle of object creation, key generation and destruction. The library keeps no hidden mutable state that one caller's work could change for another.",
  ["schedules"], "all preemptive schedules, at instruction-block granularity, of threads each using their own objects",
  "The existing tests are single threaded and run one object at a time; no schedule other than the sequential one is ever executed.",
  CIPH + DIG + RSA + ["src/com/random.c", "src/com/prime.c"], [("all state lives in caller-owned contexts", "every Ra*Create/Ra*Init; struct RaMontCtx scratch numbers")],
  [("ctx->tmp, ctx->mul", "per-key scratch", "src/com/montexpmod.c")], ["results of all public calls made by concurrent threads"])

p("C05", "Hardware-accelerated and portable code paths are indistinguishable",
  "Whether or not the processor offers AES and SHA instructions, and for every build-time variant of the same algorithm (word size, table size, portable or accelerated), every cipher, digest, generator and RSA call on a given key gives bit-identical results for the same inputs and call history, so data produced on one machine is always accepted on another. Choosing a path never affects anything but speed.",
  ["configurations", "inputs", "histories"], "all combinations of processor features reported at context creation (varying between contexts of one process, and between communicating machines) and library build variants, all inputs and call histories",
  "The test host has one fixed CPU, so exactly one path of each algorithm ever runs, always in the default build.",
  ["src/cipher/aes.c", "src/cipher/aes_x86.c", "src/digest/sha1.c", "src/digest/sha1_x86.c", "src/digest/sha2.c", "src/digest/sha2_x86.c", "src/com/bignumber.c", "src/com/montexpmod.c"],
  [("cpuid dispatch", "RaAesCheckForInstructionSet, RaSha1CheckForInstructionSet, RaSha256CheckForInstructionSet"), ("BN_WORD_BYTE, RACRYPT_AES_MIN_TABLE, RACRYPT_PRIME_MIN_TABLE", "src/include/racrypt.h, racrypt_bn.h")],
  (), ["outputs of cipher, digest and RSA calls on simulated machines with different features"])

p("C06", "Running out of memory yields a clean error or the right result, nothing else",
  "If any allocation (or any set of allocations) made during any public call fails, the call either reports an error or completes with exactly the result it gives when memory is plentiful. It never crashes, aborts, hangs, touches memory it does not own, reports success with a wrong or partial result, gives a wrong yes/no verdict, or stores a half-built object through its output pointer.",
  ["fault_sequences"], "every single allocation of every call failing, and all multi-failure patterns (bursts, permanent exhaustion from any point)",
  "No test makes an allocation fail, so no out-of-memory branch is ever executed.",
  RSA + ["src/com/prime.c", "src/com/random.c"] + CIPH[1:] + DIG, [("NULL checks and _EXIT cleanup blocks", "every function that allocates"), ("RaMontCreate/RaMontDestroy on partial contexts", "src/com/montexpmod.c")],
  (), ["return codes, output pointers, memory accesses under injected allocation failure"])

p("C07", "Failures leak nothing and leave surviving objects fully usable",
  "After any call, failed or successful, every block of memory and every file descriptor the library acquired is either owned by a live object or released exactly once, and destroying the objects returns everything. An object that survives a failed operation keeps giving correct results once the failure stops, and the failed operation itself then succeeds when retried.",
  ["fault_sequences", "histories"], "all allocation, entropy-device and bad-input failures at any point of any call history, followed by recovery",
  "Tests never fail an operation midway and never account for memory or descriptors.",
  RSA + ["src/com/prime.c", "src/com/random.c"], [("_EXIT cleanup blocks and Destroy functions", "src/pk/rsa.c, src/com/*.c"), ("close() after reading the seed", "src/com/random.c RaRandomGetRandomSeedBytes")],
  (), ["simulated heap and descriptor tables after each call; results of retried operations"])

p("C08", "Automatic seeding is fully random or fails; it never silently turns predictable",
  "A generator created without a seed (and every key, prime or number generated without a caller's generator) depends on every bit of at least 256 bits of fresh operating-system entropy, whichever descriptor number the device gets and however its reads are interrupted or split. If the entropy cannot be obtained in full, the operation reports an error rather than producing output that is a function of the clock or of partial entropy.",
  ["fault_sequences", "schedules", "histories"], "all behaviours of the entropy device (any descriptor incl. 0, interrupted opens/reads, short reads, I/O errors, end of file, missing device, descriptor exhaustion), all clock values and jumps",
  "Tests only ever see a healthy /dev/urandom; a predictable fallback produces output that passes every functional test.",
  ["src/com/random.c", "src/com/prime.c", "src/com/bignumber.c", "src/pk/rsa.c"], [("seed collection", "src/com/random.c RaRandomGetRandomSeedBytes"), ("implicit generators", "RaGenPrimeNumberEx, RaRsaCreateKeyPair, RaIsPrimeNumber, BnGenRandomByteArray")],
  [("default_seed", "32 bytes of entropy and a clock value", "src/com/random.c")], ["generator output as a function of device bytes; return codes under device faults"])

p("C09", "A seeded generator is reproducible and its draws stay in range",
  "The byte stream of a generator created from a caller's seed is a function of the algorithm and seed alone: it does not depend on how requests are sized or mixed, on the clock, on operating-system entropy, on the processor, or on any other activity in the process, it never repeats a block, and different seeds or algorithms give different streams. Integer draws always lie within the requested inclusive bounds, can reach every part of them, and real draws lie strictly between 0 and 1.",
  ["histories", "schedules", "inputs", "configurations"], "all seeds and algorithms, all sequences and sizes of requests, all environments and interleavings with other objects, all values the underlying stream can deliver",
  "Tests draw a few values and look at them statistically; they cannot compare request histories or environments, nor reach extreme stream values.",
  ["src/com/random.c"], [("hash-chain block refill and offset bookkeeping", "RaRandomUpdate, RaRandomBytes"), ("scaling of draws", "RaRandom, RaRandomInt")],
  [("buffer, buffer_offset, count", "unconsumed part of the current block", "struct RaRandom")], ["RaRandomBytes, RaRandom, RaRandomInt results"])

p("C10", "Every generated RSA key is mathematically valid and of the requested size",
  "Whatever entropy and clock history the generator sees, a successful RSA key generation returns a key whose modulus has exactly the requested number of bits and is the product of two distinct primes of half that size, whose private exponent inverts the public exponent 65537, and whose CRT components are consistent, so that the library's own key verification accepts it and decryption inverts encryption for every message below the modulus. Keys from different entropy never coincide.",
  ["histories", "inputs", "fault_sequences"], "all entropy and clock histories, including rare ones (equal primes, primes congruent to 1 modulo the exponent, products one bit short), and all supported even key sizes from 128 bits up",
  "A test generates one or a few keys per run; unlucky entropy has probabilities (1/32768 and below) that unit tests never meet.",
  ["src/pk/rsa.c", "src/com/prime.c", "src/com/gcd.c", "src/com/bignumber.c", "src/com/random.c"], [("prime selection loop and derivation of d, dP, dQ, qInv", "src/pk/rsa.c RaRsaCreateKeyPair"), ("RaGenPrimeNumberEx", "src/com/prime.c")],
  (), ["exported key components, RaRsaKeyBitLength, RaRsaVerifyKey, RaRsaEncrypt/Decrypt"])

p("C11", "Key generation, primality testing and key import always finish in bounded work",
  "Prime and RSA key generation for every supported size (64 bits and up for keys, 16 bits and up for primes), primality tests of every non-negative number, and import and use of any byte string as a key complete within a bounded amount of work, whatever entropy, clock values and stored data they meet and whichever failures are injected on the way. No input or fault makes a call loop forever.",
  ["inputs", "histories", "fault_sequences"], "all numbers, sizes, entropy/clock histories, stored key bytes and injected failures; liveness as a step bound counted by the simulator",
  "Tests use a few large sizes where the loops terminate; sizes whose top word is partly filled, tiny numbers and corrupt keys are never tried.",
  ["src/com/prime.c", "src/pk/rsa.c", "src/com/bignumber.c", "src/com/gcd.c", "src/pk/asn1.c"], [("candidate and witness rejection loops", "src/com/prime.c GenProbablePrimeNumber, CheckMillerRabin"), ("random masking", "src/com/bignumber.c BnGenRandom")],
  (), ["simulator step counter per call"])

p("C12", "RSA operations invert each other; verification accepts only the true signature",
  "For any valid key, decrypting an encrypted message and verifying a signed message succeed for every message below the modulus, on the same or another machine, with private and public halves imported from any equivalent encoding. Verification succeeds only if the signature raised to the public exponent modulo the modulus equals the message: a signature or message that was altered, swapped, replayed for another message, oversized or zeroed in transit is rejected with an error, also when memory runs out during the check, and operations needing a private key fail cleanly on a public one.",
  ["inputs", "fault_sequences", "histories"], "all keys, messages and signatures, all tampering, reordering, duplication and truncation in transit, all allocation failures during verification",
  "Tests verify one genuine signature per key; acceptance of forgeries or failures during verification are never exercised.",
  ["src/pk/rsa.c", "src/com/montexpmod.c", "src/com/bignumber.c"], [("modular exponentiation and comparison", "src/pk/rsa.c RaRsaVerify; src/com/montexpmod.c RaMontExpMod")],
  (), ["RaRsaSign, RaRsaVerify, RaRsaEncrypt, RaRsaDecrypt"])

p("C13", "Importing stored keys is exact for intact data and safe for damaged data",
  "A key read back from its PKCS#1 or PKCS#8/SubjectPublicKeyInfo encoding (minimal or long-form lengths, extra attributes or parameters after the required fields tolerated) is identical to the key that was written. For torn, truncated, bit-flipped, extended or arbitrary bytes the import either reports an error and produces no key, or produces a key on which every later call is memory-safe and terminates; a strict prefix of a valid encoding is always rejected, and no byte outside the given data is ever read.",
  ["inputs", "fault_sequences", "crash_points"], "all valid encodings, every truncation point (torn write), all bit flips, splices and arbitrary byte strings",
  "Tests import one well-formed key of each kind; no damaged or truncated encoding is ever parsed.",
  ["src/pk/asn1.c", "src/pk/rsa.c", "src/com/bignumber.c", "src/com/montexpmod.c"], [("bounds checks in the BER reader", "src/pk/asn1.c ASN1Read/ASN1Parse"), ("structure and type checks", "src/pk/rsa.c RaRsaCreateKeyPub/Priv/FromByteArray")],
  (), ["RaRsaCreateKeyFromByteArray, RaRsaCreateKeyPub, RaRsaCreateKeyPriv and calls on the imported key"])

p("C14", "Key export writes exactly the canonical encoding and never past the buffer",
  "Exporting a key reports the exact encoded length when given no buffer, writes exactly that canonical encoding when the buffer is at least that long, and writes nothing and reports an error when it is shorter or when memory runs out; re-importing the export gives the same key, for every key size. No byte outside the reported length is ever written, and a public-only key is never exported as private.",
  ["inputs", "fault_sequences"], "all keys (sizes and component lengths, including components with leading zero bytes), all buffer sizes, all allocation failures during export",
  "Tests export one key with the exact buffer size; short buffers and unusual component lengths are never tried.",
  ["src/pk/rsa.c", "src/com/bignumber.c"], [("length computation and copy-out", "src/pk/rsa.c RaRsaPrivKeyToByteArray/RaRsaPubKeyToByteArray"), ("BnToByteArray", "src/com/bignumber.c")],
  (), ["bytes written, *resultLen, return code"])

p("C15", "Primality verdicts and generated primes are right under any entropy",
  "For every non-negative number the primality test answers prime for every prime, and composite for every composite except with the probability its five (three from 1024 bits on) random rounds leave (at most 1/4 per round), whatever entropy and clock it sees; failing entropy or memory produce an error, never a verdict. A prime generation that was not cancelled and reports success delivers a number that is prime and has exactly the requested bit length, and a cancelled one stops at once, calls back no further and releases everything.",
  ["inputs", "histories", "fault_sequences", "schedules"], "all numbers including tiny ones, Carmichael numbers, strong pseudoprimes to fixed bases and products of close primes; all entropy histories; cancellation at any callback; device and allocation failures",
  "Tests check a few large primes and composites under one entropy history and never cancel or fail the search.",
  ["src/com/prime.c", "src/com/montexpmod.c", "src/com/bignumber.c"], [("Miller-Rabin with random witnesses", "src/com/prime.c CheckMillerRabin"), ("sieve and size control", "src/com/prime.c GenProbablePrimeNumber"), ("progress callback", "src/com/prime.c RaGenPrimeNumberEx")],
  (), ["RaIsPrimeNumber, RaGenPrimeNumber(Ex)"])

p("C16", "Destroying an object really erases its secrets from released memory",
  "When a cipher, digest, generator or RSA key object is destroyed, at any point of its life, or when a failed creation or import discards a partly built key object, the memory of the object that goes back to the allocator holds none of its secrets: no key, key schedule, buffered message data, generator state, private exponent, prime or CRT component. This holds in the library as shipped (optimised build), not only in the source text.",
  ["histories", "fault_sequences", "crash_points"], "all object kinds, all call histories before destruction, all allocation failures that abort a creation or import",
  "No test looks at released memory, and the compiler may legally delete a plain clearing store just before a release, which no functional test can notice.",
  CIPH + DIG + RSA + ["src/com/random.c"], [("clearing before free", "every Ra*Destroy, BnClearFree, RaMontDestroy")],
  (), ["contents of blocks at the moment they are handed back to the allocator"])

p("C17", "Streams resume exactly from a checkpoint after a crash",
  "At any block boundary the IV reported by a cipher context, together with the key, is a complete checkpoint: a fresh context (on any machine) given that key and IV continues the encryption or decryption stream byte for byte, in every mode, any number of times, whatever happened to the original context. A byte copy of a digest context or of an RC4 context taken at any moment is likewise a complete checkpoint.",
  ["crash_points", "histories", "schedules"], "all crash instants in a stream, all fragmentations before and after, repeated crashes, resumption on machines with other processor features or memory layout",
  "Tests never read the IV back in mid-stream or move a stream to another context.",
  CIPH + DIG, [("chaining value kept in the context after every block", "src/cipher/block_cipher.c"), ("Ra*GetIV/Ra*SetIV", "src/cipher/*.c")],
  (), ["output after resuming compared with the uninterrupted stream"])

p("C18", "Key verification accepts every sound key and rejects every inconsistent one",
  "The key verification call accepts every RSA key pair whose components are consistent (modulus the product of two primes, private exponent the inverse of the public one, CRT values matching) and every public key with exponent below the modulus, and it reports an error for any imported private key in which any component was altered in storage so that the relations no longer hold. Entropy or memory failures during the call produce an error, never acceptance of a bad key, and never corrupt the key.",
  ["inputs", "fault_sequences", "histories"], "all keys, all alterations of stored components (single or combined, including prime replaced by composite and values off by multiples), all entropy histories and allocation failures during the call",
  "Tests run the call on one good key of each kind; no inconsistent key is ever checked.",
  ["src/pk/rsa.c", "src/com/prime.c", "src/com/gcd.c", "src/com/bignumber.c"], [("relation checks", "src/pk/rsa.c RaRsaVerifyKey")],
  (), ["RaRsaVerifyKey return code"])

p("C19", "An abandoned or finished stream leaves no residue in a reused context",
  "Setting an IV, finishing a message or re-initialising brings a cipher context to the same state as a fresh one with that key and IV, and re-initialising a digest context does the same, whatever partial data, finished messages, direction changes or earlier keys, modes and algorithms the context had seen. Nothing of the abandoned stream influences any later output or return value.",
  ["histories", "crash_points"], "all histories in which a stream is abandoned at any byte, finished with any padding, or its context re-initialised with other key, key size, mode or algorithm",
  "Tests use each context for one message; state left behind by abandonment is never observed.",
  CIPH + DIG, [("resetting bufferFilled and iv", "src/cipher/block_cipher.c RaBlockCipherSetIV/Init/*Final"), ("Ra*Init", "src/digest/*.c, src/cipher/*.c")],
  (), ["outputs of a reused context compared with a fresh one"])

p("C30", "Block and stream primitives compute the published algorithms",
  "For every key and block the single-block transforms of AES, DES, SEED, ARIA, Blowfish and the RC4 keystream equal the published standards.",
  ["inputs"], "all keys and blocks", "Tests use the published vectors only.", CIPH, [("round functions and key schedules", "src/cipher/*.c")])
p("C31", "Big-number arithmetic satisfies the integer laws for all operands",
  "Addition, subtraction, multiplication, division, shifts, comparison, gcd and modular exponentiation agree with integer arithmetic for all operands, signs, aliasing of arguments and capacities.",
  ["inputs"], "all operands, signs and aliasings", "Tests use a few random operands.", ["src/com/bignumber.c", "src/com/gcd.c", "src/com/montexpmod.c"], [("word-array arithmetic", "src/com/bignumber.c")])
p("C32", "Secret-dependent operations take secret-independent time",
  "The time and memory-access pattern of private-key and cipher operations do not depend on secret values.",
  ["inputs"], "all secrets", "Functional tests do not observe timing.", ["src/com/montexpmod.c", "src/cipher/aes.c"], [("none intended", "src/com/montexpmod.c")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), [ (x["id"], len(x["title"])) for x in P if len(x["title"])>80])
