#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as code so that long lines stay reviewable).
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

prop("C01", "Modular reduction primitives and vector kernels are exact",
 "For every modulus the library accepts (odd primes up to 61 bits) and every operand in the documented domain, each scalar modular primitive (Montgomery and Barrett reduction and multiplication, conditional reduction, Montgomery-form conversion, exponentiation) returns exactly the mathematical residue, and each lazy variant returns a congruent value inside its documented interval. Every vector kernel gives at every position the value of that scalar definition, also when its output is one of its inputs, and writes nothing beyond its length.",
 ["inputs", "configurations"], "all operands in the domain x all moduli x every vector kernel x every aliasing pattern of inputs and output",
 "The tests multiply a few random vectors with a few fixed primes; overflow and off-by-one errors only show on boundary operands (0, q-1, q, 2q-1, 2^64-1), on extreme modulus sizes, or at one of the eight unrolled lanes.",
 ["ring/modular_reduction.go", "ring/ring_vector_ops.go", "ring/utils.go"],
 [("Montgomery and Barrett reduction", "ring/modular_reduction.go"), ("eight-way unrolled kernels", "ring/ring_vector_ops.go")],
 ["return values of ring.MRed/BRed/CRed/MForm/ModExp ...", "output slices of ring.*Vec"])

prop("C02", "RNS polynomial operations equal arithmetic in Z_Q[X]/(X^N+1)",
 "Every polynomial operation of a ring (addition, subtraction, negation, reduction, coefficient-wise and scalar products, powers of two, monomial products, scaling, copying, comparison, conversion from and to big integers), restricted to any level, yields on the limbs of that level exactly the residues of the corresponding operation on integers modulo the product of those primes. It leaves higher limbs and its other operands untouched and gives the same result when the receiver is one of the operands; the combined QP ring behaves as the pair of its two rings.",
 ["inputs", "configurations"], "all operations x all levels x all receiver/operand aliasing patterns x boundary coefficient values x moduli chains",
 "Tests call a subset of these operations once, at full level, with distinct random operands; they do not look at untouched limbs, aliasing, lower levels or coefficients at the ends of the range.",
 ["ring/ring_operations.go", "ring/ring.go", "ring/ring_poly.go", "rlwe/ring_qp.go"],
 [("per-limb loops over vector kernels", "ring/ring_operations.go"), ("Q/P pairing", "rlwe/ring_qp.go")],
 ["coefficients of the receiver polynomial", "coefficients of operands and higher limbs after the call"])

prop("C03", "The NTT is an exact, invertible ring isomorphism",
 "In the standard and in the conjugate-invariant ring, for every supported degree, modulus and level, the forward transform maps a polynomial to its evaluations at the primitive roots in the library's slot order, the inverse transform restores the polynomial exactly, and point-wise multiplication in the transformed domain is multiplication in the ring. Lazy, per-limb, per-level, in-place and out-of-place variants agree modulo each prime, strict variants return fully reduced values, and lazy results may be fed into any later strict operation.",
 ["inputs", "configurations"], "all basis polynomials and boundary-valued polynomials x degrees x moduli sizes x levels x transform variants",
 "Tests compare one hard-coded vector and a round trip; they do not cover each unrolled branch (degree- and position-dependent), worst-case lazy accumulation, or the conjugate-invariant product.",
 ["ring/ring_ntt.go", "ring/ring_ntt_interface.go", "ring/ring.go", "ring/conjugate_invariant.go"],
 [("unrolled butterflies with lazy reduction", "ring/ring_ntt.go"), ("root tables", "ring/ring.go")],
 ["transformed coefficients", "round-trip and convolution results"])

prop("C04", "RNS basis conversions follow the Chinese remainder theorem",
 "Extending a polynomial from one RNS basis to another, dividing by the auxiliary modulus while reducing from the joint basis (in either direction, in and out of the transformed domain), and splitting a polynomial into its key-switching digits give at every level the residues that exact integer arithmetic on the reconstructed value prescribes, up to the documented single rounding unit. The digits recombine to the original polynomial.",
 ["inputs", "configurations"], "all pairs of levels of the two bases x boundary integer values across the whole range x basis sizes and digit sizes",
 "Tests check one random polynomial at the top level; wrong constants for a particular level pair, the last short digit, or values near the ends of the range stay unseen.",
 ["ring/ring_basis_extension.go", "rlwe/ring_qp.go"],
 [("precomputed CRT constants per level", "ring/ring_basis_extension.go")],
 ["coefficients of the converted polynomials"])

prop("C05", "Dividing by the last moduli and scaling is exact",
 "Dropping one or several of the last primes of the chain with floor or round semantics, in either domain and at any level, yields exactly the floor or the nearest integer of the quotient of the represented value, reduced modulo the remaining primes, independently of whether the division is done step by step or at once and of whether the receiver is the operand. The plaintext-modulus scalers return the nearest integer of the scaled value modulo t.",
 ["inputs", "configurations"], "all levels x number of dropped primes x domains x aliasing x integer values at rounding boundaries",
 "Tests use random values, which land on a rounding boundary with negligible probability, and few levels.",
 ["ring/ring_scaling.go"],
 [("rescale constants", "ring/ring.go"), ("DivFloor/DivRound families and scalers", "ring/ring_scaling.go")],
 ["coefficients of the result"])

prop("C06", "Automorphisms, permutations and degree maps act as specified",
 "Applying a Galois automorphism in the coefficient domain and in the transformed domain gives the same polynomial, equal to substituting X by its power; automorphisms compose as a group, and multiplication by a monomial and cyclic shifts follow their definition for every amount. Folding to and unfolding from the conjugate-invariant ring and mapping between ring degrees are mutually inverse ring maps on their domain.",
 ["inputs", "configurations"], "all odd Galois elements modulo 2N (and modulo 4N for the folded ring) x all basis polynomials x degrees x levels x all monomial degrees",
 "Tests try two or three Galois elements on one random polynomial; an index error for a particular element or coefficient is invisible.",
 ["ring/ring_automorphism.go", "ring/ring_operations.go", "ring/conjugate_invariant.go", "ring/ring_poly.go", "rlwe/elements.go"],
 [("NTT permutation index", "ring/ring_automorphism.go"), ("fold/unfold", "ring/conjugate_invariant.go")],
 ["coefficients of the image polynomial"])

prop("C07", "Samplers return valid samples for every random stream",
 "Whatever bytes the random source delivers, a uniform sample has every coefficient strictly below its modulus, a Gaussian sample is the same small integer in every limb with absolute value at most the configured bound, and a ternary sample is the same value in {-1,0,1} in every limb with exactly the requested number of non-zero coefficients when a weight is requested. Reading at a level writes only the limbs of that level, the add variants add exactly such a sample to the receiver, samplers with equal streams give equal samples, the limbs encode the value in the requested (plain or Montgomery) form, and different coefficients, uniform limbs and reads are drawn from different parts of the stream at every supported degree.",
 ["inputs", "configurations"], "all byte streams from an alphabet that reaches every branch (rejection, retries, buffer refill, extremes) x sampler configurations x levels",
 "Tests draw from one keyed stream and check ranges; rejection at the modulus boundary, buffer exhaustion mid-sample and rare table rows need chosen streams.",
 ["ring/ring_sampler.go", "ring/ring_sampler_uniform.go", "ring/ring_sampler_gaussian.go", "ring/ring_sampler_ternary.go"],
 [("rejection by mask", "ring/ring_sampler_uniform.go"), ("ziggurat tables", "ring/ring_sampler_gaussian.go"), ("Knuth-Yao and sparse sampling", "ring/ring_sampler_ternary.go")],
 ["sampled polynomials", "number of bytes drawn from the source"])

prop("C08", "Serialised objects round-trip into fresh and reused receivers",
 "Every serialisable object (polynomials, rings, parameter sets, plaintexts, ciphertexts, secret, public, switching, relinearisation and rotation keys), whatever its degree, level, domain flags and key type, is decoded from its own encoding to an object equal to the original and usable in its place, also when the receiver already held another object. Encodings have exactly the announced length, and writing into a dirty or larger buffer changes only the bytes of the encoding.",
 ["inputs", "configurations", "histories"], "all object kinds x degrees x levels x domain flags x moduli counts x previous contents of receiver and buffer",
 "Tests round-trip one full-level object of each kind into a fresh receiver; lower levels, mixed flags, keys without auxiliary primes, reused receivers and dirty buffers are not tried.",
 ["ring/ring_poly.go", "ring/ring.go", "rlwe/marshaler.go", "rlwe/ring_qp.go", "rlwe/params.go", "ckks/ciphertext.go", "ckks/params.go", "utils/buffer.go"],
 [("length-prefixed encodings", "rlwe/marshaler.go"), ("flag bytes", "ring/ring_poly.go")],
 ["decoded object compared with the original", "bytes of the target buffer"])

prop("C09", "Keyed random streams are reproducible and seekable; helpers match models",
 "Two generators with the same key return the same bytes however the reads are split, seeking to a position resumes exactly the stream that sequential reading would give there, and the reported position is the number of reads since the key. The byte buffer returns what was written in the order it was written, and the slice, bit-reversal and numeric helpers agree with their mathematical definition.",
 ["histories", "inputs"], "all operation sequences (read sizes, seek, clock queries, writes and reads of each width) up to a depth, and all helper arguments in a small domain",
 "The tests do a single seek and a few fixed helper inputs.",
 ["utils/prng.go", "utils/buffer.go", "utils/utils.go"],
 [("extendable-output hash with a clock", "utils/prng.go"), ("append/consume buffer", "utils/buffer.go")],
 ["bytes returned", "clock values"])

prop("C10", "Decryption inverts encryption within the noise bound",
 "For every parameter set, level, plaintext and ciphertext domain, key kind (public or secret, with or without auxiliary primes) and encryption route (plain, with a common reference polynomial, into a new or used receiver, through copies and re-keyed copies), decrypting an encryption with the matching secret key returns the plaintext plus an error no larger than the bound implied by the configured error and secret distributions. The result has the level and domain documented for the call, and ciphertexts of degree zero to at least three decrypt as the polynomial in the secret key they denote.",
 ["inputs", "configurations", "histories"], "all levels x domains x key kinds x encryption routes x plaintext shapes x ciphertext degrees x receiver states",
 "Tests encrypt zero at one level per parameter set and check a statistical noise estimate; mixed levels, reused receivers and non-transformed operands are not combined.",
 ["rlwe/encryptor.go", "rlwe/decryptor.go", "rlwe/keygen.go", "ckks/encryptor.go", "ckks/decryptor.go"],
 [("public-key encryption with auxiliary modulus", "rlwe/encryptor.go"), ("Horner decryption", "rlwe/decryptor.go")],
 ["decrypted plaintext coefficients", "levels and domain flags of results"])

prop("C11", "Key switching re-encrypts the same message under the target key",
 "For every level of the ciphertext and of the auxiliary modulus, for every digit layout and ring type, applying a switching key (between two secrets, for relinearising any supported degree, for any Galois element, or between ring degrees and ring types) yields a ciphertext that decrypts under the target key to the expected message with error within the worst-case bound. The hoisted, in-place and delayed-division routes give the same ciphertext residues up to the documented rounding, in whichever domain the operand is.",
 ["inputs", "configurations"], "all pairs of levels x digit layouts (including a short last digit and many digits with 60/61-bit primes) x key kinds x Galois elements x routes",
 "Tests check the top level of large parameter sets with loose statistical thresholds, one or two rotations, and no parameter set where lazy accumulation reaches its overflow margin.",
 ["rlwe/keyswitch.go", "rlwe/keygen.go", "rlwe/elements.go", "rlwe/keys.go"],
 [("gadget decomposition and lazy accumulation", "rlwe/keyswitch.go"), ("gadget encryption of the input key", "rlwe/keygen.go")],
 ["decryption of the switched ciphertext"])

prop("C12", "Parameter sets, rings and primes are validated and described correctly",
 "A ring or parameter set is constructed exactly when its degree and moduli satisfy the documented requirements (otherwise an error is returned and nothing is usable), prime generation returns the requested number of distinct primes of the requested size congruent to one modulo the root order, and every derived quantity reported by a parameter set (moduli, products, bit sizes, digit counts, Galois elements and their inverses, sibling parameter sets) equals its definition. Two parameter sets compare equal exactly when all their components are equal.",
 ["inputs", "configurations"], "all literals over a small alphabet of valid and invalid fields x pairs of parameter sets x all rotation amounts",
 "Tests use the default parameter sets only; invalid literals, prefix-equal chains and negative rotations are not compared with a model.",
 ["rlwe/params.go", "ckks/params.go", "frlwe/params.go", "ring/ring.go", "ring/primes.go"],
 [("parameter checks", "rlwe/params.go"), ("prime search", "ring/primes.go")],
 ["returned errors", "accessor values"])

prop("C13", "The fast key switch equals the reference gadget key switch",
 "For every level, digit size, block size and auxiliary big-modulus chain that satisfies the documented size condition, the accelerated key switch and the accelerated relinearisation and rotation keys produce a ciphertext that decrypts to the same message as the exact integer gadget key switch, with error within its worst-case bound. The result does not depend on what the key switcher was used for before.",
 ["inputs", "configurations", "histories"], "all levels x digit sizes x block sizes x big-modulus chains x boundary-valued operands x sequences of calls at varying levels",
 "The single stable test compares one product at one level of one huge parameter set.",
 ["frlwe/keyswitch.go", "frlwe/keygen.go", "frlwe/params.go", "frlwe/keys.go"],
 [("external product over an auxiliary big modulus", "frlwe/keyswitch.go"), ("key conversion to blocks", "frlwe/keygen.go")],
 ["output polynomials of the key switch", "decryption"])

prop("C14", "CKKS decoding inverts encoding for every slot layout",
 "For both ring types, every number of slots, level and scale, slot encoding followed by decoding returns the input values within the rounding bound, the encoded polynomial is the scaled canonical-embedding preimage, and coefficient encoding returns the coefficients. This holds for complex and real inputs, shorter inputs (padded with zeros), new and previously used plaintexts, in either domain, for the arbitrary-precision encoder and for embedding into the joint basis, and never depends on what was encoded or decoded before.",
 ["inputs", "configurations", "histories"], "all slot counts x levels x scales x input kinds and lengths x basis vectors and boundary values x sequences of encode/decode calls",
 "No stable test exercises the encoder at all.",
 ["ckks/encoder.go", "ckks/ckks_vector_ops.go", "ckks/utils.go", "ckks/plaintext.go"],
 [("special FFT", "ckks/ckks_vector_ops.go"), ("fixed-point CRT embedding", "ckks/utils.go")],
 ["decoded values", "plaintext polynomial"])

prop("C15", "CKKS evaluation computes the circuit with exact level and scale bookkeeping",
 "Any sequence of CKKS operations (additions, subtractions, negation, constants, multiplications with or without relinearisation and accumulation, rescaling, level drops, rotation, conjugation, multiplication by i, key switching, scale changes) over ciphertexts and plaintexts of any mix of levels, degrees and scales decrypts to the value of the same computation on complex vectors within the noise bound. The level, degree and scale recorded in each result are those of the documented rule and match the decrypted value.",
 ["programs", "inputs", "configurations"], "all operation sequences up to a depth over an alphabet of operand shapes, constants and rotation amounts, for both ring types",
 "No stable test exercises the evaluator at all; even the original tests would sample single operations at full level.",
 ["ckks/evaluator.go", "ckks/ciphertext.go", "ckks/params.go"],
 [("evaluator", "ckks/evaluator.go")],
 ["decrypted and decoded values", "Level/Degree/Scale of results"])

prop("C16", "Operations are functions of their operands: no aliasing or history effects",
 "Every operation of encoders, encryptors, decryptors, evaluators, key switchers and multipliers of arbitrary-precision complex numbers leaves its input operands unchanged, gives the same result into a fresh receiver, a previously used receiver of at least the needed size, and, where the receiver may be an operand, in place, and its result does not depend on which operations the same object performed before. Objects returned earlier are not modified by later calls, and share no memory with the operands or with the object: overwriting a returned result changes neither an operand nor any later result.",
 ["histories", "programs", "inputs"], "all ordered pairs and triples of operations on one shared object compared with fresh objects x all aliasing patterns x receiver shapes",
 "Tests use an object once per operation with fresh receivers; state left behind in internal buffers only matters for particular successions.",
 ["ckks/evaluator.go", "ckks/encoder.go", "rlwe/keyswitch.go", "rlwe/encryptor.go", "rlwe/decryptor.go", "frlwe/keyswitch.go", "fckks/evaluator.go", "ring/complex128.go"],
 [("reused memory pools", "ckks/evaluator.go")],
 ["operands before and after", "results against a fresh object"],
 [("memory pools", "scratch polynomials shared by all operations of an object", "ckks/evaluator.go, rlwe/keyswitch.go, frlwe/keyswitch.go")])

prop("C17", "Shallow copies can be used concurrently with their original",
 "An object and its shallow copies (encoders, encryptors, decryptors, key switchers, basis extenders, re-keyed copies) can be driven from different goroutines: under every interleaving each call returns what it would return when run alone. No two copies share mutable state, and objects documented as read-only (parameters, rings, keys, plaintext and ciphertext operands) may be shared by all of them.",
 ["schedules"], "all interleavings, up to a preemption bound, of two or three goroutines each performing short call sequences on an object and its copies",
 "Tests never run two copies at the same time, and a sequential test cannot observe a shared scratch buffer.",
 ["ckks/encoder.go", "ckks/encryptor.go", "ckks/decryptor.go", "rlwe/encryptor.go", "rlwe/decryptor.go", "rlwe/keyswitch.go", "ring/ring_basis_extension.go", "ring/ring_sampler_uniform.go"],
 [("ShallowCopy/WithKey reallocate buffers", "rlwe/encryptor.go, ckks/encoder.go, rlwe/keyswitch.go")],
 ["results of each goroutine under each schedule"],
 [("buffers", "scratch memory that must not be shared between copies", "every ShallowCopy")])

prop("C18", "The fast CKKS scheme computes the same circuits as CKKS",
 "Programs over the fast scheme (message encryption and decryption, addition, subtraction, multiplication with fast relinearisation, rotation by any amount, key switching) at any level decrypt to the same values as the plaintext computation within the noise bound, with the level and scale of the ordinary scheme. Each result depends only on its operands, not on the ciphertexts the same evaluator, encryptor or decryptor handled before, and operands are left unchanged.",
 ["programs", "histories", "inputs", "configurations"], "all operation sequences up to a depth x levels x rotation amounts x parameter layouts",
 "The package has no stable test.",
 ["fckks/evaluator.go", "fckks/encryptor.go", "fckks/decryptor.go", "fckks/params.go", "frlwe/keygen.go"],
 [("fast evaluator", "fckks/evaluator.go"), ("pooled message encryption", "fckks/encryptor.go")],
 ["decrypted messages", "Level/Scale of results"])

prop("C19", "Objects are values: construction, copies, comparison and resizing",
 "Every constructor (polynomials, joint polynomials, keys of every kind, shares, plaintexts, ciphertexts, messages) returns an object of the shape prescribed by the parameters and the requested level, all zero, no two of whose parts share memory; the random and from-polynomial constructors fill the same shape, or are views of what they are given. A copy (CopyNew, Copy) is equal to its original in every part, flag, level and scale, and writing to either one never changes the other. The comparisons (Equals, Includes) hold exactly when every compared part is equal and both objects have the same parts. Resizing a polynomial, ciphertext or basis keeps the parts that remain, adds zero parts, and changes nothing else.",
 ["inputs", "configurations"], "all object kinds x shapes (degrees, level pairs, digit layouts, missing parts) x flags x source and receiver shapes x single-component changes",
 "Tests build objects of one shape at the maximum level and compare them once; a copy that shares one part, or a comparison that skips one, shows only for a particular kind, shape and component.",
 ["ring/ring_poly.go", "rlwe/ring_qp.go", "rlwe/keys.go", "rlwe/elements.go", "ckks/ciphertext.go", "ckks/plaintext.go", "frlwe/keys.go", "fckks/elements.go"],
 [("CopyNew/Copy/Equals/Resize", "ring/ring_poly.go, rlwe/keys.go, rlwe/elements.go")],
 ["structure and values of the objects", "results of Equals/Includes", "memory shared between objects"])

prop("C20", "Misuse is refused, without effect",
 "A call outside its documented preconditions ends in an error or a panic; a call within them does not. This holds for: operands or receivers of the wrong degree, operands outside the NTT domain, two plaintexts or no operand, missing relinearisation, rotation or conjugation keys, conjugation and multiplication by i on conjugate-invariant parameters, the conditions of Rescale (positive scales, level above 0, NTT domain, receiver of the same degree and level), SetScale at level 0, slot counts and numbers and types of values in the encoders, keys of another degree or of the wrong type given to encryptors and decryptors, encryption under a public key from a common polynomial, generating switching keys or key switchers without auxiliary modulus, ring-degree changes (fold, unfold, pad) of mismatched degrees, and operands of the fast key switcher in the wrong domain. A refused call leaves its operands (also one that is the receiver), all keys and all parameters unchanged, and the object keeps working as a fresh one does in every later call.",
 ["histories", "inputs", "configurations"], "all sequences (operation, misuse, operation or misuse) on each kind of object x degrees x levels x domains x scales x aliasing of operands and receivers x slot counts and lengths x key degrees",
 "Tests never call an operation outside its precondition, let alone use the object afterwards; a check that is skipped, or that comes after the receiver was modified, shows only for a particular shape and history.",
 ["ckks/evaluator.go", "ckks/encoder.go", "ckks/encryptor.go", "rlwe/encryptor.go", "rlwe/decryptor.go", "rlwe/keygen.go", "rlwe/keyswitch.go", "frlwe/keyswitch.go", "fckks/evaluator.go", "ring/conjugate_invariant.go"],
 [("operand checks of the evaluator", "ckks/evaluator.go"), ("key checks of encryptors", "rlwe/encryptor.go"), ("slot checks of the encoders", "ckks/encoder.go")],
 ["whether the call ends in an error or panic", "operands, keys and later results"])
prop("C21", "Every key and every encryption has its own full-strength randomness",
 "Every RLWE sample the library makes (each row of each switching, relinearisation, rotation, ring-degree, ring-swap and fast key, each public key, each encryption by every route, domain, level, receiver and copy) has a mask that is uniform modulo every prime of the chain (or is the given common polynomial), errors with the configured Gaussian distribution in all coefficients of each of its polynomials, and, with a public key, an ephemeral ternary secret of the configured weight. Whatever was generated or encrypted before, on the same object, a copy, a re-keyed copy or another object, no two samples share or correlate their masks, errors or secrets. Generators and encryptors are keyed with at least 32 bytes of system randomness, all of which influences what they make.",
 ["histories", "inputs", "configurations"], "all sequences of key generations and encryptions on one set of objects x parameter sets x key kinds x domains x levels x receivers x copies; all bits of the seeds",
 "Tests decrypt and compare with an upper bound on the noise: a missing, reused, weakened or correlated error or mask decrypts even better. It shows only when the randomness of several samples of one history is taken apart and compared.",
 ["rlwe/keygen.go", "rlwe/encryptor.go", "ckks/encryptor.go", "frlwe/keygen.go", "fckks/encryptor.go", "utils/prng.go"],
 [("samplers of encryptors", "rlwe/encryptor.go"), ("rows of switching keys", "rlwe/keygen.go"), ("seeds", "utils/prng.go")],
 ["masks, errors and secrets recovered from keys and ciphertexts", "dependence on the system's randomness"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
