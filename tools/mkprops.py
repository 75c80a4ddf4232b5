import json
P=[]
def p(id,title,statement,over,text,why,files,mech,state=None,observe=None,hook=None):
    a={"files":files,"mechanism":[{"name":m,"where":files[0]} for m in mech]}
    if state: a["state"]=state
    if observe: a["observe_at"]=observe
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

p("P01","Encrypted circuits decrypt to the plaintext circuit",
"For every supported parameter set (each bootstrapping order, each secret-key distribution), every key and every Boolean circuit built from not, nand, and, or, nor, xor, xnor, majority and mux over encrypted bits, chained to any depth, decrypting the result gives the value of the plaintext circuit. The noise of every gate output stays below one sixteenth of the ciphertext modulus, so that it can be fed to further gates. This holds whatever order, delay, duplication or retransmission the ciphertexts undergo between client and evaluator, and after the evaluator is restarted from its key seed.",
["histories","inputs","configurations","fault_sequences"],
"All keys, all circuits and depths, all message delivery orders and evaluator restarts, all supported parameter sets.",
"The repository has no test of the gate evaluator at all (only an example program with two parameter sets and one random circuit); wrong results need a particular key bit, rotation amount, digit or gate chain.",
["bool/src/bfhe/evaluate.rs","fhe_core/src/blind_rotation/binary.rs","fhe_core/src/blind_rotation/ternary.rs","fhe_core/src/key_switch/lwe.rs","fhe_core/src/key_switch/rlwe.rs","fhe_core/src/modulus_switch.rs","fhe_core/src/secret_key.rs"],
["gate = linear combination, blind rotation of a lookup polynomial, key switch and modulus switch in the configured order"],
observe=["Decryptor::decrypt / decrypt_with_noise on Evaluator outputs"])

p("P02","Gate results do not depend on threads or scheduling",
"An evaluation key, its parameters and ciphertexts may be shared by any number of threads: for every interleaving, thread-pool size and mix of concurrent gate calls, each call returns exactly the ciphertext (every coefficient) the same call returns when run alone, and leaves its inputs unchanged. Every call completes: no schedule, pool size or nesting inside a pool makes it hang, and a panic in one task does not disturb the others.",
["schedules","configurations","histories"],
"All interleavings of concurrent gate, bootstrap and encryption calls, thread-pool sizes from one up, calls made inside and outside pools.",
"No test runs the evaluator or two threads; an interleaving-dependent result needs a particular preemption point.",
["bool/src/bfhe/evaluate.rs","fhe_core/src/blind_rotation/ternary.rs","lattice/src/utils/space.rs","algebra_derive/src/ntt.rs"],
["mux runs two gates through rayon::join","each call allocates its own scratch space; transform tables are process-wide shared state"],
observe=["ciphertexts returned by Evaluator methods from concurrent threads"])

p("P03","Transform tables are safe and unique under concurrent first use",
"Any number of threads may look up or initialise transform tables of any mix of sizes and fields at the same time, at first use or later: every call returns a table of the requested size that transforms correctly, calls for the same field and size observe one and the same table from then on, and a table once handed out is never changed or freed while held. Every request completes, and no access is a data race.",
["schedules","histories"],
"All interleavings of lookups and initialisations over all sizes and fields, from process start.",
"Existing tests touch the table cache from whatever threads the test runner happens to use, never with a controlled race at first use; a torn read of the shared map needs a preemption inside an insertion.",
["algebra_derive/src/ntt.rs","algebra/src/transformation/ntt_table.rs","algebra/src/field/ntt_fields.rs"],
["process-wide per-field map from log2 size to table, filled on demand under a lock"],
state=[{"name":"per-field table map","meaning":"log2 size -> shared transform table"}],
observe=["NTTField::get_ntt_table / init_ntt_table results"])

p("P04","A failed table request never affects other requests",
"A request for a transform size the field cannot support is answered with an error, and leaves everything else usable: before, after and concurrently with failed requests (also ones in the middle of a batch initialisation), supported sizes of the same and other fields can be initialised, looked up and used, and repeating the unsupported request fails the same way again.",
["fault_sequences","schedules","histories"],
"All sequences and interleavings of supported and unsupported sizes, single and batched.",
"Tests only request supported sizes; the failure path runs while a process-wide lock is held, so its effect shows only on a later request.",
["algebra_derive/src/ntt.rs"],
["error return / panic inside the table-initialisation critical section; lock poisoning; partially applied batch"],
observe=["NTTField::get_ntt_table, init_ntt_table, polynomial products after a failure"])

p("P05","Keys and fresh ciphertexts honour the parameters for any random stream",
"For every random stream the caller supplies, including extreme or heavily biased ones, generated secret keys have the declared dimensions and only values of the declared distribution (binary, ternary, or Gaussian within seven deviations), the transformed ring key is the transform of the ring key, and where the parameters call for it the ring key equals the LWE key. Every fresh encryption of every message in the message space decrypts to that message, and its noise (as reported and as actually present) is at most six standard deviations of the declared error distribution (rounded to an integer), for every message modulus and dimension.",
["inputs","fault_sequences","configurations"],
"All random streams (not only well-behaved generators), messages, message moduli, dimensions (including ones that are not powers of two or multiples of the vector width) and secret-key distributions.",
"No test covers key generation or encryption; library tests use one well-behaved generator whose extreme outputs have negligible probability.",
["fhe_core/src/secret_key.rs","fhe_core/src/plaintext.rs","lattice/src/lwe.rs","lattice/src/utils/sample.rs","algebra/src/random.rs","algebra/src/utils/sample.rs","algebra/src/modulus/powof2"],
["samplers turn words of the caller's random stream into key, mask and error values"],
observe=["SecretKeyPack accessors, encrypt, decrypt, decrypt_with_noise"])

p("P06","The seeded generator is one stream fixed by its seed",
"The byte stream of the AES-based generator is a pure function of its seed: AES-128 in counter mode under that key, counting from zero, no matter how reads are split among single values, byte slices, block slices and booleans, in any order consistent with standard word-buffered reading. A clone continues with exactly the stream of the original and neither affects the other, from any position and on any thread. Generators created without a seed are keyed from system entropy and differ from each other.",
["histories","schedules","inputs"],
"All seeds, all sequences of read calls and sizes, all clone points, all interleavings of threads using their own generators.",
"The only test draws two blocks from one randomly seeded generator and checks that they differ.",
["algebra/src/utils/prg.rs","algebra/src/utils/aes.rs","algebra/src/utils/block.rs"],
["eight-block buffered AES counter mode behind the standard block-generator adaptor"],
observe=["Prg RngCore methods and helpers, Aes encrypt methods"])

p("P07","A failing randomness source leaves no damage behind",
"If the caller's or the system's randomness source fails (unwinds, is interrupted or returns short reads) at any draw inside key generation, evaluation-key generation, encryption, sampling or table initialisation, no other object changes, no lock or process-wide state stays broken and no other thread is disturbed. Repeating the operation afterwards with a working source gives exactly the result it would have given without the earlier failure.",
["crash_points","fault_sequences","schedules"],
"Every draw index of every randomised operation as the failure point, with other threads working concurrently.",
"No test injects a randomness failure; the damage would show only in a later operation.",
["algebra_derive/src/ntt.rs","algebra/src/utils/prime.rs","algebra/src/utils/prg.rs","fhe_core/src/secret_key.rs","bool/src/bfhe/evaluate.rs","lattice/src/lwe.rs"],
["system entropy is drawn lazily inside table initialisation while a process-wide lock is held","caller-supplied generators may unwind mid-operation"],
observe=["results of operations repeated after a failure"])

p("P08","In-place operations ignore what their buffers held before",
"Every operation that writes into a caller-supplied destination or scratch space (polynomial, LWE, RLWE, gadget and RGSW arithmetic, external products, digit decomposition, transforms) gives exactly the result of its allocating or by-value counterpart, whatever earlier, possibly aborted, operations left in those buffers and however often they are reused. Inputs passed by shared reference are never modified.",
["histories","crash_points","inputs"],
"All histories of operations sharing destinations and scratch spaces, including ones cut short by a panic, over all fields and sizes.",
"Tests call each in-place operation once with freshly zeroed buffers; stale contents only exist after a history.",
["lattice/src/utils/space.rs","lattice/src/rlwe.rs","lattice/src/gadget/rlwe.rs","lattice/src/rgsw.rs","algebra/src/polynomial/native_polynomial.rs","algebra/src/polynomial/ntt_polynomial.rs","algebra_derive/src/decomposable_field.rs"],
["reusable decomposition, polynomial, RLWE and RGSW scratch spaces; *_inplace destinations"],
observe=["destination contents compared with the allocating form"])

p("P09","Decoded field elements are always valid field elements",
"Serialising a field element, or a sequence of them, and reading it back gives the same element, in every supported format. Reading any other bytes, such as truncated, bit-flipped, or hand-written ones, yields either an error or elements strictly below the modulus, congruent to the number that was read, that behave as ordinary field elements in all later arithmetic, transforms and comparisons.",
["fault_sequences","inputs"],
"All stored values and all corruptions (flips, truncation, extension, torn writes) of their stored bytes, for each element width.",
"The one serde test round-trips well-formed values; corrupted storage never occurs in it.",
["algebra_derive/src/basic.rs","algebra_derive/src/field.rs","algebra_derive/src/ast.rs"],
["derive-generated Serialize/Deserialize of the element's integer"],
observe=["bincode and JSON decoding of field elements"])

p("P10","Primality verdicts are right whatever entropy is drawn",
"The primality check accepts every prime for every number of rounds and whatever random bases the system entropy yields, and gives the same verdict from any thread. With at least twenty rounds it rejects every composite, except with the tiny probability allowed by its documented error bound over the random bases; in particular no composite is accepted for every choice of entropy.",
["inputs","schedules","fault_sequences"],
"All moduli of each width, all entropy values, all round counts.",
"The unit test tries five random 62-bit numbers per run; composites that pass the first base (strong pseudoprimes) are vanishingly rare among those.",
["algebra/src/utils/prime.rs","algebra_derive/src/prime.rs","algebra/src/modulus/barrett/mod.rs"],
["trial division by small primes, then Miller-Rabin with base 2 and random bases seeded from thread-local system entropy"],
observe=["Prime::probably_prime, PrimeField::is_prime_field"])

p("P11","Equal seeds give equal keys and data in every process",
"Given the same parameters and the same seeded random stream, key generation, evaluation-key generation, encryption and gate evaluation give identical results in every process, at every time, on every thread and in whatever order transform sizes were first used or system entropy was drawn. Roots of unity and transform tables depend only on the field and the size, so data kept in transformed form stays valid across restarts and between machines.",
["schedules","crash_points","fault_sequences","configurations"],
"All entropy values drawn by the process, all orders of first use, all restart points, all thread-pool sizes.",
"Tests run in one process and draw the entropy once; agreement between processes is never compared.",
["algebra_derive/src/ntt.rs","algebra/src/transformation/ntt_table.rs","algebra/src/utils/prg.rs","fhe_core/src/secret_key.rs"],
["root search draws random candidates, then reduces them to the minimal primitive root"],
observe=["NTTField roots and tables, serialised key material, ciphertexts from two simulated processes"])

p("P12","Bootstrapping applies the given lookup table",
"Bootstrapping a ciphertext with any lookup polynomial yields a ciphertext, under the original key and modulus, of the table entry selected by the input's phase (with sign flipped in the negative half), shifted by one eighth of the modulus, up to the key noise and rounding; with noise-free keys it is that value exactly up to modulus-switch and digit rounding. This holds for every input ciphertext, also trivial ones, ones with zero or extreme coefficients and ones whose modulus is smaller than, equal to or larger than twice the ring dimension, for every bootstrapping order and key distribution.",
["inputs","configurations","histories"],
"All ciphertexts (every rotation amount), lookup tables, keys, decomposition bases and supported parameter shapes.",
"Nothing tests bootstrapping; each rotation amount, wrap-around and zero coefficient takes its own code path.",
["bool/src/bfhe/evaluate.rs","fhe_core/src/blind_rotation/binary.rs","fhe_core/src/blind_rotation/ternary.rs","lattice/src/rlwe.rs","fhe_core/src/modulus_switch.rs"],
["monomial rotation of the table, controlled rotations by external products, sample extraction"],
observe=["phase of Evaluator::bootstrap output, BlindRotationKey::blind_rotate output"])

p("P13","Key switching preserves the encrypted value",
"Switching an LWE or RLWE ciphertext from the ring key to the LWE key keeps its phase up to the noise of the key-switching key (exactly, with a noise-free key), for every ciphertext, decomposition basis, and LWE dimension including ones that are not powers of two or are smaller than the ring dimension. The two entry points agree on ciphertexts that represent the same value, and the switching key is reusable without limit.",
["inputs","configurations","histories"],
"All ciphertexts, keys, dimensions and bases, any number of uses of one key.",
"Key switching has no test; digits, chunking and sign conventions differ by dimension.",
["fhe_core/src/key_switch/lwe.rs","fhe_core/src/key_switch/rlwe.rs","lattice/src/gadget/rlwe.rs","lattice/src/utils/decompose_basis.rs"],
["digit decomposition against per-digit key samples; negacyclic chunking of the mask"],
observe=["KeySwitchingLWEKey::key_switch_for_lwe, KeySwitchingRLWEKey::key_switch_for_rlwe / key_switch_for_lwe"])

p("P14","Lattice ciphertext sessions follow the plaintext model",
"For every sequence of operations on LWE, RLWE, gadget and RGSW ciphertexts and polynomials (add, subtract, negate, scalar and polynomial products, monomial rotation, gadget and external products, RGSW products, conversion to and from transformed form, extraction), each intermediate ciphertext decrypts to what the same operations on plaintext polynomials modulo X^N+1 give, up to the noise the inputs carried and the operations are allowed to add. Transformed and coefficient forms stay interchangeable at every step.",
["histories","inputs","configurations"],
"All operation sequences, element values including 0, 1 and modulus-1, fields of every width, ring sizes and decomposition bases.",
"Existing tests check single operations at one size and one field on random data.",
["lattice/src/lwe.rs","lattice/src/rlwe.rs","lattice/src/gadget/rlwe.rs","lattice/src/rgsw.rs","algebra/src/polynomial/native_polynomial.rs","algebra/src/polynomial/ntt_polynomial.rs","algebra/src/transformation/ntt_table.rs"],
["ciphertext algebra over NTT and coefficient representations"],
observe=["phase b - a*s of every intermediate ciphertext"])

p("P15","Every mask, error and key coefficient is freshly drawn as declared",
"Encryption, public samples, key-switching keys and bootstrapping keys draw every mask coefficient uniformly from the full ciphertext space and every error and key coefficient from the declared distribution, using fresh randomness each time. No two samples produced from one random stream share a mask or error vector or have one that is constant, zero or derivable from another, and samples made from different streams are unrelated.",
["inputs","histories","configurations"],
"All random streams from a sound generator, all sequences of sampling operations, all fields, dimensions and distributions.",
"No test looks at the distribution or reuse of sampled values; decryption stays correct when a mask is reused or an error is zero.",
["algebra/src/random.rs","algebra/src/utils/sample.rs","lattice/src/utils/sample.rs","lattice/src/lwe.rs","lattice/src/rlwe.rs","lattice/src/gadget/rlwe.rs","lattice/src/rgsw.rs","fhe_core/src/key_switch/lwe.rs"],
["samplers and generate_random_*_sample constructors"],
observe=["coefficients of generated samples and keys under a simulated random stream"])

p("P16","Modular arithmetic kernels are exact for every operand",
"Every modular operation (Barrett, Shoup, power-of-two, Goldilocks and BabyBear reduction, widening and wrapping primitives, greatest common divisor, inverse) returns the mathematically exact result in the documented range for every operand in its documented domain.",
["inputs"],
"All operands of each width and all moduli.",
"Unit tests sample operands; corner values of 64-bit domains are not enumerable.",
["algebra/src/modulus","algebra/src/reduce","algebra/src/primitive","algebra/src/utils/gcd.rs"],
["pure arithmetic on machine integers"])

p("P17","Parameter validation accepts exactly the compatible sets",
"Building parameters succeeds exactly when ring dimension, ring modulus, plaintext and ciphertext moduli are mutually compatible, returns a descriptive error otherwise, and every accessor reports the value supplied.",
["inputs","configurations"],
"All parameter combinations.",
"No test constructs invalid parameters.",
["fhe_core/src/parameter.rs","fhe_core/src/error.rs"],
["pure validation of a struct"])

with open("/verif/properties.jsonl","w") as f:
    for x in P:
        assert len(x["title"])<=80,(x["id"],len(x["title"]))
        f.write(json.dumps(x)+"\n")
