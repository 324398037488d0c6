#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so the text stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

HOOK = "cfg(onion_verif): the crate has no public API; verif_hooks re-exports the items"

prop("C01", "A PIR query returns exactly the requested record",
 "For every database filling a hypercube of first_dim x dim^k records, every record content below the plaintext modulus and every requested position, the first response ciphertext decrypts under the querying client's key to exactly the requested record, all coefficients included. Position [i0, i1, ..., ik] addresses record i0 + first_dim*(i1 + dim*(i2 + ...)).",
 ["inputs", "configurations", "histories"],
 "All hypercube shapes, database contents, positions, client keys and parameter sets whose noise budget admits the query.",
 "The repository's only end-to-end test runs one position of one 4x2x2 database with near-constant records and asserts nothing about the decrypted answer.",
 ["src/evaluations.rs", "src/bfv.rs", "src/rgsw.rs", "src/ksk.rs"],
 [("query encoding into one unit vector per dimension", "src/evaluations.rs Client::encode"), ("expansion, RGSW assembly, first-dimension dot products and folding", "src/evaluations.rs Server::decode")],
 ["decrypted response", "query coefficients"], hook="cfg(onion_verif) wrappers for the private client, server and evaluation key")

prop("C02", "Queries are oblivious, stateless and independent of each other",
 "What the server receives and returns for a query (number of ciphertexts, their level and number of parts, and the responses' count) depends only on the database shape and parameters, never on the requested position, and repeated encryptions of the same position share no ciphertext. Any interleaving of queries by any number of clients with their own keys against one server gives every client the answer it would have got alone, also when a query is repeated.",
 ["histories", "schedules", "inputs"],
 "All positions, all interleavings of several clients' steps, all repetitions.",
 "No test issues two queries, uses two clients or compares anything between positions.",
 ["src/evaluations.rs", "src/bfv.rs"],
 [("server state is read-only", "src/evaluations.rs Server::decode"), ("fixed-length unit-vector encoding", "src/evaluations.rs Client::encode"), ("fresh encryption", "src/bfv.rs SecretKey::encrypt_poly")],
 ["query and response shapes", "decrypted responses of interleaved sessions"], hook="cfg(onion_verif) wrappers for the private client, server and evaluation key")

prop("C03", "Oblivious expansion separates every coefficient",
 "Expanding a ciphertext of a polynomial with N coefficients yields exactly N ciphertexts, the k-th of which decrypts to the constant polynomial holding coefficient k and zero elsewhere, for every polynomial. The noise it adds is bounded by (N-1) key switches, so expanding scaled (gadget) encryptions also preserves their exact value up to that noise.",
 ["inputs", "configurations"],
 "All polynomials, degrees, moduli chains and keys.",
 "The existing expansion tests only print or count mismatches without asserting; one degree and one random message each.",
 ["src/evaluations.rs", "src/bfv.rs", "src/rq.rs"],
 [("binary tree of C +/- Subs(C, N/2^i+1) with X^-(2^i)", "src/evaluations.rs Evaluation::unpack"), ("Galois keys per tree level", "src/evaluations.rs Evaluation::build")],
 ["phase and decryption of each leaf"], hook="cfg(onion_verif) wrapper for Evaluation")

prop("C04", "Decrypting an encryption returns the message",
 "For every message of at most N values below the plaintext modulus, at every level of the moduli chain and in both encodings (coefficient and SIMD slots), encrypting and then decrypting with the same key returns exactly the message, padded with zeros in coefficient encoding. The ciphertext carries the level of its plaintext, has two parts and equals the scaled message plus an error of at most the configured bound.",
 ["inputs", "configurations"],
 "All messages, levels, encodings, keys, degrees, plaintext moduli and moduli chains.",
 "Tests encrypt random messages at level 0 with one parameter set; other levels and extreme values are never reached.",
 ["src/bfv.rs", "src/rq.rs", "src/rns.rs"],
 [("scaling by Q/t", "src/bfv.rs Plaintext::to_poly"), ("RLWE encryption", "src/bfv.rs SecretKey::encrypt_poly"), ("rounding by t/Q", "src/bfv.rs SecretKey::decrypt")],
 ["decrypted values", "ciphertext phase"], hook=HOOK)

prop("C05", "Linear operations on ciphertexts act exactly on the messages",
 "Adding or subtracting ciphertexts, adding a scaled polynomial, and multiplying a ciphertext by a plaintext, a polynomial, an integer constant or in an inner product decrypt to the corresponding operation in Z_t[X]/(X^N+1), for ciphertexts with any number of parts, at any level and in any composition within the noise budget. These operations add no noise of their own: the underlying noisy value is exactly the operation applied to the operands' noisy values, and operands are left unchanged.",
 ["inputs", "programs", "configurations"],
 "All programs of linear operations over all messages, levels and part counts.",
 "No test checks the result of adding, subtracting or scaling ciphertexts, and none composes two operations.",
 ["src/bfv.rs", "src/rq.rs", "src/omr.rs"],
 [("component-wise ring operations", "src/bfv.rs Add/Sub/Mul impls"), ("inner product", "src/omr.rs inner_product")],
 ["phase and decryption of each result"], hook=HOOK + "; wrapper for omr::inner_product")

prop("C06", "Ciphertext products decrypt to the product of the messages",
 "Multiplying two ciphertexts, with or without relinearization and at every level with sufficient noise budget, decrypts to the product of the messages in Z_t[X]/(X^N+1). Without relinearization a product of k-part and l-part ciphertexts has k+l-1 parts, each the rounded t/Q multiple of the tensor product; with relinearization it has two parts and differs only by bounded key switching noise.",
 ["inputs", "programs", "configurations"],
 "All message pairs, levels, keys and part counts.",
 "The only multiplication test multiplies two constants and prints the result.",
 ["src/bfv.rs", "src/rq.rs", "src/rns.rs"],
 [("basis extension, tensor product, scale down", "src/bfv.rs Mul<&BfvCipherText>, multiply_with_strategy"), ("relinearization", "src/bfv.rs RelinearizationKey")],
 ["parts, phase and decryption of products"], hook=HOOK)

prop("C07", "Galois automorphisms permute coefficients and slots as specified",
 "For every odd exponent k, applying the Galois key for k to a ciphertext at the key's level decrypts to m(X^k), with noise growth bounded by one key switch. On SIMD-encoded messages exponent 3 rotates both rows by one slot to the left, powers of 3 rotate accordingly, and exponent 2N-1 swaps the two rows.",
 ["inputs", "configurations"],
 "All odd exponents, messages, levels, degrees and keys.",
 "Tests use exponent 3 at level 0 and degree 8; slot rotation is only printed.",
 ["src/bfv.rs", "src/rq.rs", "src/ksk.rs"],
 [("substitution and key switching", "src/bfv.rs GaliosKey"), ("slot order", "src/bfv.rs matrix_reps_index_map")],
 ["phase and decryption of results"], hook=HOOK)

prop("C08", "Key switching and external products multiply under encryption",
 "Key switching a polynomial d with a key for f yields an encryption of d*f, and the external product of an RGSW encryption of g with a ciphertext yields an encryption of g times its noisy value, both within the noise bound implied by the key's own errors, at every level and for every polynomial. An RGSW ciphertext assembled from encryptions of the gadget multiples of g behaves like one encrypted directly.",
 ["inputs", "configurations", "programs"],
 "All polynomials, levels (also keys at a higher level than the ciphertext), keys, and chains of external products.",
 "Tests use one level and random messages; the assembled-RGSW tests only print, and tolerances are fixed at about 70 bits.",
 ["src/ksk.rs", "src/rgsw.rs", "src/rns.rs"],
 [("CRT gadget decomposition", "src/ksk.rs Ksk::new, key_switch"), ("external product", "src/rgsw.rs RgswCt"), ("assembly", "src/ksk.rs try_from_decomposed_rlwes")],
 ["phase of results", "phase of every key component"], hook=HOOK)

prop("C09", "Reported noise is the true noise and stays within its bounds",
 "The noise reported for a ciphertext is the bit length of the largest deviation of its noisy value from the ideal encoding of the message it decrypts to, for any level and number of parts. A fresh ciphertext's error is at most the sampler's bound, and after any program of homomorphic operations the true noise never exceeds the analytic bound of that program.",
 ["inputs", "programs", "configurations"],
 "All ciphertexts reachable by programs of operations, all levels and part counts.",
 "Noise is only printed by the tests.",
 ["src/bfv.rs", "src/utils.rs", "src/ksk.rs"],
 [("noise measurement", "src/bfv.rs SecretKey::measure_noise"), ("error sampling", "src/utils.rs sample_vec_cbd")],
 ["reported noise against phase"], hook=HOOK)

prop("C10", "Every encryption and key component uses fresh randomness",
 "No two ciphertexts or key components, in any history of key generation, encryption, and evaluation key construction, share a mask, and each mask is full-range, not a small or structured polynomial. Each one's error is independently drawn, non-degenerate, at most the sampler's bound and never shared, and secret keys are fresh for every generation.",
 ["histories", "inputs"],
 "All histories of encryptions and key generations, also of equal messages under equal keys.",
 "Decryption tests succeed equally well with repeated masks or without any error.",
 ["src/bfv.rs", "src/ksk.rs", "src/rgsw.rs", "src/rq.rs", "src/pvw.rs"],
 [("seeded uniform masks", "src/bfv.rs encrypt_poly, src/ksk.rs Ksk::new"), ("errors", "src/rq.rs Poly::random_small")],
 ["masks and errors of all ciphertexts and keys produced"], hook=HOOK)

prop("C11", "SIMD encoding is a ring isomorphism onto slots",
 "Decoding an encoded vector returns it for every vector of N slots below the plaintext modulus, and distinct vectors have distinct encodings. Adding and multiplying encoded plaintext polynomials in Z_t[X]/(X^N+1) adds and multiplies slot by slot; coefficient encoding is the identity padded with zeros.",
 ["inputs", "configurations"],
 "All slot vectors, degrees and plaintext moduli supporting the transform.",
 "Only random round trips at degree 8 are tested; homomorphy is not.",
 ["src/bfv.rs", "src/ntt.rs"],
 [("slot index map and inverse transform", "src/bfv.rs Plaintext::new/decode, matrix_reps_index_map")],
 ["encoded coefficients", "decoded slots"], hook=HOOK)

prop("C12", "The number theoretic transform is evaluation at the odd roots",
 "For every supported prime and power-of-two size, the forward transform maps a polynomial to its values at N distinct roots of X^N+1 and the backward transform inverts it, on every polynomial. All outputs are canonical residues, and the pointwise product of transforms is the transform of the negacyclic product.",
 ["inputs", "configurations"],
 "All polynomials with canonical coefficients, all supported primes up to 62 bits, all sizes; unsupported primes and sizes are refused.",
 "The test does a round trip of one random polynomial for one prime and size 8.",
 ["src/ntt.rs", "src/modulus.rs"],
 [("lazy Harvey butterflies and final reductions", "src/ntt.rs forward/backward"), ("primitive root search and tables", "src/ntt.rs NttOperator::new")],
 ["transform outputs"], hook=HOOK)

prop("C13", "Modular arithmetic is exact for every modulus and operand",
 "For every prime modulus below 2^62 and all operands in their documented ranges, reduction, addition, subtraction, negation, multiplication, exponentiation, inversion and their vector, signed, wide-integer and precomputed-quotient variants return the canonical residue of the mathematical result, lazy variants a value congruent to it and below twice the modulus. Random residues are below the modulus.",
 ["inputs", "configurations"],
 "All moduli 2 <= p < 2^62 (primes for inversion), all operands of the documented range, 64 and 128 bit inputs to the reductions.",
 "There is no test of modular arithmetic at all; it is exercised only through random polynomials.",
 ["src/modulus.rs"],
 [("Barrett reduction", "src/modulus.rs lazy_reduce_ct, lazy_reduce_u128"), ("constant time conditional subtraction", "src/modulus.rs reduce_ct"), ("Shoup multiplication", "src/modulus.rs lazy_mul_shoup")],
 ["return values"], hook=HOOK)

prop("C14", "Residue number representation is a bijection",
 "For every basis of distinct primes, projecting an integer below the product to residues and lifting it back returns it, and lifting any canonical residues gives the unique integer below the product with those residues. The basis constants satisfy their definitions: each gadget element is 1 modulo its own prime and 0 modulo the others.",
 ["inputs", "configurations"],
 "All bases of distinct primes below 2^62 and all integers or residue vectors.",
 "Only used indirectly.",
 ["src/rns.rs", "src/rq.rs"],
 [("CRT constants", "src/rns.rs RnsContext::new"), ("project and lift", "src/rns.rs")],
 ["residues and lifted integers"], hook=HOOK)

prop("C15", "Rescaling rounds the centered value exactly",
 "Scaling a residue representation by a rational factor into any other basis gives the residues of factor times the centered value (between minus and plus half the source modulus) rounded to nearest, for every input; with factor one it is an exact change of basis. Polynomials are scaled coefficient by coefficient in either representation, whichever bases share moduli.",
 ["inputs", "configurations"],
 "All residue vectors, source and target bases, and factors; values closer than 2^-40 to a rounding or centering tie may round either way.",
 "No test calls the scaler directly; decryption of random messages never comes near its rounding, sign or carry cases.",
 ["src/rns.rs", "src/rq.rs"],
 [("fixed-point inner products with theta and omega", "src/rns.rs RnsScaler::scale"), ("common prefix copy", "src/rq.rs RqScaler")],
 ["output residues"], hook=HOOK + "; wrapper for the crate-private RqScaler::scale")

prop("C16", "Modulus switching divides and rounds down the chain",
 "Dropping the last modulus q of a polynomial replaces every coefficient x by x/q rounded to nearest, modulo the remaining product, and leaves it in the context of the shorter chain. Switching to a context k steps down equals k single steps; switching to a context that is not below the current one is refused.",
 ["inputs", "configurations"],
 "All polynomials, chains of any length with moduli in any size order, and target contexts.",
 "One random polynomial on one chain ordered small to large moduli is tested; multi-step switching is not.",
 ["src/rq.rs"],
 [("divide and round in residues", "src/rq.rs mod_switch_down_next"), ("context chain", "src/rq.rs RqContext::new, switch_iterations")],
 ["coefficients and context after switching"], hook=HOOK)

prop("C17", "Polynomial operations obey the ring and agree across representations",
 "Addition, subtraction, negation, multiplication, scaling by an integer, inversion and substitution X -> X^k of polynomials equal those operations in Z_Q[X]/(X^N+1), whichever representation the operands passed through, and do not alter their inputs. Changing representation back and forth is the identity; building from unsigned, signed or big integers reduces each coefficient modulo every prime.",
 ["inputs", "programs", "configurations"],
 "All polynomials, odd exponents, degrees and moduli chains; all programs of operations and representation changes.",
 "The substitution test only prints; sums, products and conversions are not asserted anywhere.",
 ["src/rq.rs", "src/ntt.rs", "src/modulus.rs"],
 [("row-wise operations", "src/rq.rs operator impls"), ("index permutation in transformed form", "src/rq.rs Substitution, substitute")],
 ["coefficients of results"], hook=HOOK)

prop("C18", "PVW encryption decrypts correctly",
 "For every bit vector of the configured length and every parameter set whose worst-case accumulated error (public key rows times twice the variance) is below the integer quarter floor(q/4), decrypting a PVW encryption with the matching secret key returns the vector. Ciphertexts are the claimed subset sums: they have the configured dimensions, canonical entries, and deviate from the encoded bits by at most the accumulated public key errors.",
 ["inputs", "configurations"],
 "All bit vectors, dimensions, moduli and keys within the error condition.",
 "Five random 4-bit messages with one parameter set.",
 ["src/pvw.rs", "src/utils.rs", "src/modulus.rs"],
 [("public key and subset sum", "src/pvw.rs gen_pk, encrypt"), ("rounding", "src/pvw.rs decrypt")],
 ["decrypted bits", "ciphertext entries"], hook=HOOK)

prop("C19", "Generated parameters are sound",
 "Generated moduli are distinct primes of exactly the requested bit sizes, congruent to 1 modulo 2N and, per size, the largest available; when not enough exist, generation reports failure and never returns a wrong value. Parameter sets built from any valid moduli have one consistent context per level, each the parent without its last modulus, and an extension basis disjoint from the moduli and large enough to hold products exactly.",
 ["inputs", "configurations"],
 "All size lists of 10 to 62 bits, degrees, upper bounds and plaintext moduli.",
 "Tests generate a few size lists and never examine the result.",
 ["src/bfv.rs", "src/utils.rs", "src/rq.rs", "src/rns.rs"],
 [("prime search", "src/utils.rs generate_prime, is_prime"), ("moduli generation", "src/bfv.rs generate_moduli"), ("level contexts", "src/bfv.rs BfvParameters::new")],
 ["generated moduli", "contexts of a parameter set"], hook=HOOK)

prop("C20", "Mismatched or invalid operands are refused",
 "Ciphertext, key switching and encryption operations whose operands disagree in level, parameters or polynomial context, or have a representation or number of parts the operation does not support, are refused instead of producing a result. So are arguments outside the domain: even substitution exponents, unsupported transform sizes, moduli of more than 62 bits, query positions or counts that do not fit the database, zero denominators, invalid variances, bit sizes or encodings, and switching a modulus that is not there. Valid operands are never refused.",
 ["inputs", "programs"],
 "Every combination of operation and violated precondition.",
 "No test exercises a refusal.",
 ["src/bfv.rs", "src/rq.rs", "src/ksk.rs", "src/rgsw.rs", "src/evaluations.rs", "src/ntt.rs", "src/rns.rs", "src/utils.rs", "src/modulus.rs"],
 [("precondition assertions", "assert! at the entry of the operations")],
 ["whether the call returns or panics"], hook=HOOK)

prop("C21", "Samplers have the specified range, distribution and determinism",
 "Error and secret coefficients follow a centered binomial distribution with the requested variance: never beyond twice the variance in absolute value, symmetric, with the whole likely range occurring, coefficients independent of their position and of each other. Uniform polynomials are canonical and uniform in every modulus; expanding a seed is deterministic, differs between seeds, and does not depend on history.",
 ["inputs", "configurations", "histories"],
 "All variances 1 to 16, vector sizes, generator streams and seeds.",
 "No test looks at a sampled value.",
 ["src/utils.rs", "src/rq.rs", "src/modulus.rs", "src/bfv.rs"],
 [("bit-sliced binomial sampling", "src/utils.rs sample_vec_cbd"), ("seed expansion", "src/rq.rs Poly::random_from_seed")],
 ["sampled values"], hook=HOOK)

prop("C22", "Wide-integer and bit helpers compute what they claim",
 "256-bit addition and subtraction wrap modulo 2^256, shifts by any amount below 256 divide by that power of two, complement and conversions preserve the value, for every operand. Bit vectors and base-2^b digits recompose to the decomposed number; integer logarithm, ceiling division, modular inverse and primality are exact for every input whose intermediate sum fits the type.",
 ["inputs"],
 "All 256-bit operands and shift amounts, all 64-bit numbers and digit sizes.",
 "Two all-ones values are tested for decomposition; the 256-bit type is not tested.",
 ["src/utils.rs"],
 [("carry chains and shifts", "src/utils.rs U256"), ("digits", "src/utils.rs decompose_bits, bit_vector"), ("number theory helpers", "src/utils.rs mod_inverse, is_prime, ilog2, div_ceil")],
 ["return values"], hook=HOOK)

with open(os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl'), 'w') as f:
    for p in P: f.write(json.dumps(p) + '\n')
print(len(P), max(len(p['title']) for p in P))
