#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"state": [{"name": n, "meaning": m, "where": w} for n, m, w in state]} if state else {}),
                          **({"observe_at": observe} if observe else {}),
                          "hook_needed": None}})

FT = "includes/field_template.hpp"; ET = "includes/ecc_template.hpp"
FS = ["src/fields/field_secp256r1.cpp", "src/fields/field_bn254.cpp"]
ES = ["src/ecc/ecc_secp256r1.cpp", "src/ecc/ecc_bn254.cpp"]

prop("C01", "Field arithmetic is exact and canonical",
 "For every supported prime field and all operands, construction from any integer, addition, subtraction, negation, squaring and multiplication (by an element or by any integer, in binary and in compound-assignment form) return exactly the mathematical result reduced modulo the field's prime, as the representative in [0, prime). Two elements compare equal exactly when they are the same residue, operands are not modified, and compound assignment gives the same answer as the binary operator, also when an object is its own operand.",
 ["inputs"], "all four fields (secp256r1 and bn254, base and scalar), all pairs of elements, all integers (negative, larger than the prime)",
 "test_fields checks 13 fixed values in one field; 2^256-sized operand spaces, aliasing, and bn254 are never reached",
 [FT] + FS, [("reduction after every operation", FT), ("prime constants", FS[0])],
 state=[("value, p", "canonical residue and its prime", FT)])

prop("C02", "Field inversion and division are exact",
 "In every supported field, for every non-zero element a, inverting a gives the canonical element whose product with a is one, and dividing b by a (binary or compound form) gives the canonical element whose product with a is b. The operands are left unchanged and the result lies in [0, prime).",
 ["inputs"], "all four fields, every non-zero divisor, every dividend",
 "test_fields inverts two fixed values of one field", [FT] + FS, [("modular inverse", FT)])

prop("C03", "Point addition, subtraction, doubling follow the group law",
 "On both supported curves, for any two valid points (including the point at infinity, equal points and opposite points), sum, difference, doubling and the compound-assignment forms return the valid point given by the elliptic-curve group law. In particular infinity is neutral on either side of + and -, P - P is infinity, doubling agrees with P + P, and neither operand is modified.",
 ["inputs"], "all pairs of valid points of both curves, infinity and opposite points included",
 "test_ecc checks fixed points and a few combinations on one curve; special cases (infinity as subtrahend or minuend, opposite points) and bn254 are not reached",
 [ET] + ES, [("operator+, operator-, pointDouble and their special cases", ET)],
 state=[("x, y, is_inf, curve", "affine coordinates or the neutral element, and the curve they live on", ET)])

prop("C04", "Scalar multiplication is repeated addition for every scalar",
 "On both supported curves, multiplying any valid point by any scalar (a scalar-field element, or an integer of any sign and size, which is reduced modulo the group order) returns the valid point equal to adding the point to itself that many times. Scalar zero and the point at infinity give infinity, one gives the point itself, and binary and compound forms agree.",
 ["inputs"], "all scalars (all bit lengths 1..256, negative and oversized integers), all valid points, both curves",
 "test_ecc multiplies one point by 10, 99 and 90912389", [ET], [("double-and-add loop over the binary digits", ET)])

prop("C05", "Curves, validity test and generated material are correct",
 "The two built-in curves are the standard secp256r1 and the 254-bit BN curve with parameter t = -(2^62 + 2^55 + 1) (as used by the code base), their base point is valid and has the stated prime order. The validity test accepts a finite point exactly when its coordinates satisfy the curve equation, and accepts infinity; the function that evaluates the right-hand side of the equation gives x^3 + ax + b for every x. Every random point is a valid point, every random scalar lies in [0, order), and a generated key pair's public key is the base point times its secret key.",
 ["inputs"], "every coordinate pair; every outcome of the random generator; both curves",
 "test_ecc calls the validity test on three valid points only; no invalid point, no bn254, no key pair is ever tried",
 [ET, "includes/ecc_secp256r1.hpp", "includes/ecc_bn254.hpp"] + ES, [("curve constants", ES[0]), ("isValid, getRandomPoint, getRandomScalar, generateKeyPair", ET)])

prop("C06", "Point decompression and compressed encoding are inverse",
 "For every abscissa, the two curve-evaluation functions return the two opposite points with that abscissa when they exist (each a valid point, always the same one for the same abscissa) and infinity when they do not. Encoding any valid finite point to a single integer and decoding it gives back the same point, and the encoding is injective.",
 ["inputs"], "all field elements as abscissa, all valid finite points of both curves",
 "test_ecc round-trips one random point and evaluates two fixed abscissas",
 [ET], [("evaluateP, evaluatePneg (square root for primes 3 mod 4)", ET), ("getEncodedX, setEncodedX", ET)])

prop("C07", "Message encoding to a curve point is invertible",
 "In the dual-mode encryption scheme, for every non-negative integer message small enough to leave the padding bits free, encoding returns a valid finite point of the curve and decoding that point returns the message. Decoding depends only on the point's abscissa, so distinct messages are never encoded to the same point.",
 ["inputs"], "all messages m with (m+1)*2^10 <= p, given that one of the 2^10 candidate abscissas lies on the curve",
 "test_dme encodes one random 128-bit number, test_ot one more",
 ["src/dme/dme.cpp", "includes/dme.hpp", ET], [("encode, decode, ENCODING_SHIFT", "src/dme/dme.cpp")])

prop("C08", "Decryption inverts encryption on the key's branch",
 "For every common reference string (messy mode, decryption mode or one received from another party), every branch, every key pair generated for that branch and every message given as a curve point, decrypting the encryption made under that public key for that branch returns the message; for integer messages in the encodable range the decoded decryption returns the integer. This holds for every outcome of the random choices.",
 ["inputs", "histories", "configurations"], "all CRS modes, both branches, all keys, all random scalars (zero included), all messages",
 "test_dme runs each combination once with one random message", ["src/dme/dme.cpp", "includes/dme.hpp", ET, FT],
 [("KeyGen, Enc, Dec, DecDecode, CRS set-up", "src/dme/dme.cpp")], state=[("crs", "g0,g1,h0,h1", "includes/dme.hpp")])

prop("C09", "Messy mode: trapdoor finds the messy branch, which hides",
 "In messy mode, for every public key generated for one branch, the trapdoor test names the other branch (whenever the set-up and key are non-degenerate). For every public key, a ciphertext made for a messy branch is consistent with every message: for any two messages and any encryption randomness of the first there is exactly one choice of randomness for the second that gives the same ciphertext.",
 ["inputs", "histories"], "all non-degenerate set-ups, all keys, all pairs of messages, all randomness",
 "test_dme checks the trapdoor once per branch and hiding only by decrypting the wrong branch of one ciphertext",
 ["src/dme/dme.cpp", "includes/dme.hpp"], [("DME_DDH(mode_t), FindMessy, Enc", "src/dme/dme.cpp")])

prop("C10", "Decryption mode: the trapdoor key pair opens both branches",
 "In decryption mode, for every non-degenerate set-up (both first reference points finite) and every trapdoor-generated key, the first secret key decrypts every ciphertext made under its public key for branch zero and the second decrypts every ciphertext made for branch one. Moreover every public key generated for either branch is also a public key of the other branch, so the key does not determine the receiver's choice.",
 ["inputs", "histories"], "all decryption-mode set-ups with non-zero trapdoor, all keys, messages and randomness",
 "test_dme decrypts one random message per branch", ["src/dme/dme.cpp"], [("TrapKeyGen, DME_DDH(mode_t)", "src/dme/dme.cpp")])

prop("C11", "Homomorphic evaluation adds the plaintexts",
 "For every key pair and any two ciphertexts produced for that key's branch, the evaluated ciphertext decrypts to the sum of the two message points. Evaluation can be repeated: any number of ciphertexts combined in any order decrypts to the sum of all messages.",
 ["inputs", "histories"], "all pairs of ciphertexts (equal ones, ones cancelling to infinity), both branches, repeated evaluation",
 "test_dme evaluates one pair on branch zero", ["src/dme/dmhe.cpp", "includes/dmhe.hpp", "src/dme/dme.cpp"], [("DMHE_DDH::Eval", "src/dme/dmhe.cpp")])

prop("C12", "Equality is component-wise and copies are faithful",
 "Two points, curves, public keys, key pairs, ciphertexts, reference strings or trapdoors compare equal exactly when all their components are equal (for a curve: its field prime, coefficients, order and cofactor). Constructing from components, copying and assigning any of these values yields an equal value and leaves the source unchanged; two infinite points are always equal and infinity never equals a finite point.",
 ["inputs"], "all pairs of values of each type, differing in any subset of components",
 "tests use equality only on points that should be equal or that differ everywhere; equality of keys and ciphertexts is never called",
 ["src/dme/dme.cpp", ET, "includes/dme.hpp"], [("operator== and operator= of PKEY, KeyPair, CTXT, CRS_DDH, td_*, Point, Curve", "src/dme/dme.cpp")])

prop("C13", "Oblivious transfer delivers the selected message",
 "For every reference string, every choice bit and every pair of messages (curve points, or integers in the encodable range), the receiver obtains exactly the message at its chosen position after one selection, one encryption by the sender and one decryption, and reports the choice of its latest selection. A receiver and a sender can be reused for any number of transfers, each transfer depending only on its own selection and messages.",
 ["inputs", "histories"], "both choices, all message pairs, all randomness, any sequence of transfers with the same objects",
 "test_ot runs four transfers with fixed choices", ["src/ot/ot.cpp", "includes/ot.hpp", "src/dme/dme.cpp"], [("selectMsg, encMsgs, decryptMsg", "src/ot/ot.cpp")],
 state=[("sk, b", "the receiver's current secret key and choice", "includes/ot.hpp"), ("c", "the sender's ciphertext buffer", "includes/ot.hpp")])

prop("C14", "Distributed OT aggregates any number of senders",
 "For any number of senders (at least one) encrypting under the same receiver key, the proxy's aggregate decrypts, at the receiver's chosen position, to the sum of all senders' messages at that position. The aggregate depends only on the ciphertexts of the current call, so a proxy can be reused.",
 ["inputs", "histories"], "any number of senders, any messages (including ones summing to infinity), both choices, repeated use of the proxy",
 "test_ot aggregates exactly three senders once for choice zero", ["src/ot/dot.cpp", "includes/dot.hpp", "src/dme/dmhe.cpp"], [("DOTprxy::aggregate", "src/ot/dot.cpp")],
 state=[("c", "the proxy's running aggregate", "includes/dot.hpp")])

prop("C15", "PUDA aggregation returns the exact sum",
 "For any number of users, any timestamp and any 16-bit messages whose total fits in 16 bits, aggregating the users' ciphertexts for that timestamp with the aggregator key yields exactly the total, with the ciphertexts in any order.",
 ["inputs", "histories", "configurations"], "all user counts, all timestamps (zero and negative included), all message vectors with total 0..65535, all keys",
 "test_puda aggregates ten equal messages once", ["src/puda/puda.cpp", "includes/puda.hpp"], [("Setup (keys summing to zero), Enc, Agg, compute_dlog", "src/puda/puda.cpp")],
 state=[("pp", "public parameters", "includes/puda.hpp")])

prop("C16", "PUDA tags authenticate the aggregate",
 "For any number of users, timestamp and messages, the aggregated tag equals (timestamp hash) times the sum of the tag keys plus (generator times a) times the sum of the messages, where a and the tag keys are exactly those committed in the verification key, so that the pairing equation of the scheme holds for the returned sum and tag. Verification accepts the honest sum and tag, and rejects any other sum for the same tag.",
 ["inputs", "histories"], "all user counts, timestamps, messages and keys",
 "test_puda ignores both the tag and the result of verification", ["src/puda/puda.cpp"], [("Setup, Tag, Agg, Verify", "src/puda/puda.cpp")])

prop("C17", "Shamir reconstruction recovers the secret",
 "For every secret, every threshold t >= 1 and share count n >= t (below the field order), any t or more distinct shares out of the n generated, in any order, reconstruct exactly the secret.",
 ["inputs", "configurations"], "all secrets, thresholds, share counts, subsets of at least t shares and orders",
 "test_shamirss reconstructs one secret from all ten shares in order; a proper subset is never tried",
 ["src/shamirss/shamirss.cpp", "includes/shamirss.hpp", FT], [("evalPoly, getShares, reconSecret (Lagrange at zero)", "src/shamirss/shamirss.cpp")])

prop("C18", "Shamir shares lie on a random polynomial of the right degree",
 "Sharing with threshold t and count n returns exactly n shares with indices 1..n, each the value at its index of one polynomial of degree below t whose constant term is the secret. Every other coefficient is its own draw of the random source, so that the shares of one sharing never depend on those of another.",
 ["inputs", "configurations"], "all thresholds, counts and secrets, every outcome of the random source",
 "test_shamirss never looks at the shares", ["src/shamirss/shamirss.cpp"], [("getShares, evalPoly", "src/shamirss/shamirss.cpp")])

prop("C19", "Integer to byte-string conversion is invertible",
 "Converting any non-negative integer to raw bytes yields its minimal big-endian representation and its exact length (empty for zero), and converting any byte string back yields the integer it denotes; the round trip returns the integer. A random number requested with a given bit size lies in [0, 2^bits).",
 ["inputs"], "all non-negative integers, all byte strings of any length (leading zero bytes included), all bit sizes",
 "the functions are only exercised indirectly through one random CRC and AES value", ["src/utilities/utilities.cpp", "includes/utilities.hpp"], [("getRawMpz, setRawMpz, getRandom", "src/utilities/utilities.cpp")])

prop("C20", "Checksum equals CRC-32C for every buffer",
 "For every buffer of any length and alignment and every starting value, the checksum routine returns the CRC with the Castagnoli polynomial (reflected, without inversion) of exactly these bytes, reading no byte outside the buffer. The table-driven fast path, the simple path and the choice between them never change the result.",
 ["inputs"], "all buffers, lengths (below 4, not multiples of 8), alignments, starting values",
 "test_crc checksums one 128-byte value and compares the routine only with itself", ["includes/crc.hpp"], [("calculate_crc32c, single-table and slicing-by-8 paths, 9 tables", "includes/crc.hpp")])

prop("C21", "Checksum append, validate and remove fit together",
 "For every non-negative integer n, appending a checksum gives a value that validates and from which removal gives back n; the appended value is n's bytes followed by their four checksum bytes. Validation accepts an integer exactly when its last four bytes are the checksum of the preceding ones, and all three functions are safe for every integer, however small.",
 ["inputs"], "all non-negative integers (zero, fewer than four bytes, any length)",
 "test_crc appends to one random 1024-bit number", ["includes/crc.hpp", "src/utilities/utilities.cpp"], [("appendCRC, validateCRC, removeCRC", "includes/crc.hpp")])

prop("C22", "AES decryption inverts encryption for every key and plaintext",
 "For every key below 2^128 and every non-negative plaintext of any size, decrypting a ciphertext with the key it was made with returns the plaintext, for keys, plaintexts or ciphertexts with leading zero bytes too. The ciphertext is the AES-128 counter-mode encryption of the plaintext bytes under the 16-byte big-endian key and the configured initial counter, and no memory outside the buffers is read or written.",
 ["inputs", "configurations"], "all 128-bit keys, all plaintext sizes, all initial counters",
 "test_aes encrypts one random 128-bit value under one random key", ["src/utilities/aes.cpp", "includes/aes.hpp", "src/utilities/utilities.cpp"], [("AES::encrypt, AES::decrypt, AES::init", "src/utilities/aes.cpp")],
 state=[("iv", "initial counter block shared by all AES objects", "includes/aes.hpp")])

prop("C23", "Checked AES returns the message or signals failure",
 "For every key below 2^128 and every non-negative message, decrypting with checksum what was encrypted with checksum under the same key returns the message. For any ciphertext, checked decryption returns the payload exactly when the decrypted value carries a valid checksum, and zero otherwise.",
 ["inputs"], "all keys, all messages, all ciphertexts",
 "test_aes checks one value; the rejecting path is never taken on its own", ["src/utilities/aes.cpp", "includes/crc.hpp"], [("encryptCRC, decryptCRC", "src/utilities/aes.cpp")])

prop("C24", "OPPRF gives the keyed result for every input up to the threshold",
 "For every 16-bit threshold and every 16-bit client input not above it, after the full sequence of transfer rounds and unmasking, the client's result equals the server's key point plus the server's secret point times the input, for every outcome of the random choices that produces no accidental checksum match and no degenerate (zero or infinite) random value.",
 ["inputs", "histories"], "all 2^32 threshold/input pairs with input <= threshold, all keys, secrets, shuffles and randomness",
 "test_opprf tries one threshold and three inputs", ["src/opprf/opprf.cpp", "includes/opprf.hpp", "src/ot/ot.cpp", "src/utilities/aes.cpp"], [("prepareKeysAndInputs (comparison key chain)", "src/opprf/opprf.cpp"), ("runOTRound, runOTRound_end, sendEncryptedMasks, unmaskResult", "src/opprf/opprf.cpp")],
 state=[("k_lt, k_eq, k_gt, ok", "per-bit chain keys and blinding scalars", "includes/opprf.hpp"), ("key, result", "client's running chain key and accumulated point", "includes/opprf.hpp")])

prop("C25", "OPPRF reveals only a random mask above the threshold",
 "For every 16-bit threshold and every 16-bit client input above it, the key the client ends with opens exactly one of the three final ciphertexts, the one holding an independently drawn random point, never the unblinding mask. The client's final value is then its blinded accumulation plus that random point.",
 ["inputs", "histories"], "all threshold/input pairs with input > threshold, all randomness",
 "no test runs an input above the threshold", ["src/opprf/opprf.cpp"], [("prepareKeysAndInputs, sendEncryptedMasks", "src/opprf/opprf.cpp")])

prop("C26", "OPPRF parties are reusable after cleaning",
 "After both parties clean up, a new evaluation with the same objects behaves exactly as one with newly constructed objects: nothing of an earlier evaluation (keys, blinding values, accumulated result) influences it, for any number of evaluations with any inputs and secrets.",
 ["histories"], "any sequence of evaluations separated by clean-up",
 "test_opprf runs three evaluations of one threshold", ["src/opprf/opprf.cpp"], [("OPPRFserver::clean, OPPRFclient::clean", "src/opprf/opprf.cpp")])

prop("C27", "ElGamal decryption inverts encryption",
 "For every key pair produced by key generation and every message (a curve point or an integer small enough to leave the padding bits free), decrypting an encryption under the public key with the secret key returns the message (for a point: its encoded integer). Key generation returns a public key that is the base point times the secret key.",
 ["inputs", "histories"], "all keys, messages and randomness, given that one of the padding candidates is on the curve",
 "ElGamal has an empty test file and is not part of the build", ["src/elgamal/elgamal.cpp", "includes/elgamal.hpp", ET], [("keyGen, encrypt, decrypt, encode, decode", "src/elgamal/elgamal.cpp")])

prop("C28", "Protocol messages leak nothing to a bounded adversary",
 "Transcripts of the dual-mode encryption, oblivious transfer, PUDA and OPPRF protocols reveal nothing about secrets beyond the intended output to any computationally bounded party.",
 ["histories"], "all efficient adversaries over all transcripts",
 "a probabilistic hyperproperty over adversaries; no finite set of runs bears on it", ["src/dme/dme.cpp", "src/ot/ot.cpp", "src/puda/puda.cpp", "src/opprf/opprf.cpp"], [("DDH-based constructions", "src/dme/dme.cpp")])

prop("C29", "Random values are unpredictable and independent between runs",
 "Secret keys, encryption randomness, share coefficients and masks are unpredictable to anybody without access to the process, and differ from run to run.",
 ["histories"], "all runs of all programs using the library",
 "tests run with the default seed and depend on nothing about it", [ET, "src/utilities/utilities.cpp", "src/shamirss/shamirss.cpp"], [("random source", ET)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
import jsonschema
s = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p, s); assert len(p["title"]) <= 80
print(len(P), "properties")
