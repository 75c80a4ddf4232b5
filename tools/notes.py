NOTE.update({
 "P01": "Simulated client and evaluator over a lossy, duplicating, reordering network with evaluator crashes; real keys, real gates, real rayon on simulated threads; every wire's phase and noise is checked against the plaintext circuit and recomputation after a crash must be identical. Toy parameter sets are drawn with a wide noise margin; the shipped sets run in a few of the runs.",
 "P02": "Seeded search over interleavings of gate calls from several threads, the global pool and a second pool, with panicking tasks and malformed calls injected; each call is compared with the same call run alone.",
})
NOTE.update({
 "P05": "Keys generated and messages encrypted from seeded random streams of twelve shapes (uniform to heavily biased, with long spells of extreme values), on up to three threads sharing the key, over random dimensions, moduli, distributions and the shipped sets; every key value, the transformed key, every actual and reported noise and every decryption is compared with integer reference computations.",
 "P06": "Generators seeded, cloned, handed between simulated threads and read in every kind and size of read, against an AES-128 counter-mode word-buffer model written from the standards; unseeded generators under simulated system entropy must all differ; one run reads past 2^28 blocks (2^32 in the thorough tier).",
 "P10": "Primes and hard composites (strong pseudoprimes, Carmichael numbers, p(kp-k+1), squares) judged by several threads under seeded and biased simulated system entropy, against a deterministic reference.",
})
NOTE["P09"] = "Element sequences kept in nine encodings (bincode fixed/varint/big-endian, JSON, CBOR) on a simulated disk with bit flips, truncation, torn, lost and misplaced writes, stuck sectors, edited numbers, short, interrupted and failing reads; whatever decodes is compared with the integers the same bytes decode to, and must act as ordinary elements."
NOTE["P12"] = "Bootstraps of random, trivial, extreme and phase-targeted ciphertexts with arbitrary lookup polynomials, on up to three threads sharing the evaluator, with evaluations that die half way, over every bootstrapping order, key distribution, ciphertext type and modulus relation; accumulator and output are compared with an integer reference, exactly where the keys are noise-free and within eight predicted deviations otherwise."
NOTE["P13"] = "Both key-switching keys and all entry points on random and extreme ciphertexts, shared by up to three threads, with calls that die half way, over random dimensions (powers of two and not), bases and key distributions; phases are compared with an integer reference, exactly for noise-free keys; the first switches are repeated at the end."
NOTE["P14"] = "Random sessions of polynomial, LWE, RLWE, gadget and RGSW operations over twelve fields, ring sizes 1 to 128, every entry point (allocating, by value, in place, assignment operators, the table object, monomials, field elements), on up to three threads; every intermediate ciphertext's phase is compared with schoolbook arithmetic modulo X^N+1, exactly for linear operations and within the worst case of the noise the factors carry for products."
NOTE["P08"] = "Sets of destinations and scratch spaces of several sizes, shared by up to three threads, reused over long random histories with stale, random, extreme and unreduced contents and with operations that die half way in between; every in-place operation is compared coefficient by coefficient with its allocating or by-value counterpart and its inputs with what they were."
NOTE["P07"] = "Every randomised operation (keys, evaluation keys, encryption, samplers, tables, primality, unseeded generators) aborted at seeded draw indices by the caller's generator (unwinding or reporting an error) or by failing, interrupted or short system entropy, with other threads at work; each is then repeated and compared with a simulated process in which nothing failed, shared keys must be unchanged and every table of the fields involved must still work."
NOTE["P11"] = "The same seeded key generation, evaluation keys, encryption, gates, samples, tables and roots in two to four simulated processes that differ in system entropy, clock, schedule, threads, pool size, order of work, sizes used earlier and the point they are killed at; every result (including everything its Debug text shows) must be equal."
NOTE["P15"] = "Several simulated threads, each with its own seeded stream (or the library's generator), draw samples, ciphertexts and keys from shared keys and samplers; every coefficient of every mask, error and key is judged by exact Chernoff bounds (values, tails, per position, pairs, word-reduction bias) against the declared distribution, and all vectors of a run by collisions up to factor, constant, order and sign , by repeated mask values and by linear dependence of windows of masks. Threshold e^-40 per test."
for _p in ("P02", "P04", "P07", "P08", "P12"):
    NOTE[_p] += " A second stage with every access a preemption point judges data races by vector clocks."
for _p in ("P02", "P03", "P04", "P05", "P06", "P07", "P08", "P10", "P12", "P13", "P14"):
    NOTE[_p] += " A few of the runs use 9 to 33 threads or repeat the same calls hundreds to tens of thousands of times."
