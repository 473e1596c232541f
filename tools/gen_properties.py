#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

MD5="jester_hashes/src/md5.rs"; SHA="jester_hashes/src/sha1.rs"
B2B="jester_hashes/src/blake/blake2b.rs"; B2S="jester_hashes/src/blake/blake2s.rs"; BM="jester_hashes/src/blake/mod.rs"
HL="jester_hashes/src/lib.rs"; HM="jester_hashes/src/hmac.rs"; KD="jester_hashes/src/kdf.rs"
PR="jester_maths/src/prime.rs"; DH="jester_encryption/src/diffie_hellman.rs"; RSA="jester_encryption/src/rsa.rs"
SS="jester_sharing/src/threshold_sharing/shamir_secret_sharing.rs"
BV="jester_sharing/src/multiplication/beaver_randomization_multiplication.rs"
INV="jester_sharing/src/inversion/unbounded_inversion.rs"
SEL="jester_sharing/src/conditional_selection/joint_conditional_selection.rs"
ORF="jester_sharing/src/shared_or_function/joint_unbounded_or.rs"
RNG="jester_sharing/src/random_number_generation/sum_random_number_generation.rs"
BIT="jester_sharing/src/random_number_generation/root_random_bit_generation.rs"
PROC="jester_sharing/jester_sharing_proc/src/lib.rs"
DR="jester_double_ratchet/src/lib.rs"

# ---------------------------------------------------------------- hashes
prop("H01", "MD5 and SHA-1 compress exactly the padded message, however it is split",
 "For every message and every division of it into successive update calls, MD5 and SHA-1 feed their compression step exactly the message bytes, once each and in order, followed by the byte 0x80, the fewest zero bytes that complete a 64-byte block, and the 64-bit message length in bits (little endian for MD5, big endian for SHA-1). The returned digest is the chaining value after the last block, so the one-shot and every incremental way of hashing the same message agree.",
 ["inputs", "histories"], "all messages, all sequences of update calls of all chunk lengths (including empty chunks and chunks that end on or cross a block boundary)",
 "The tests hash one three-chunk text and a few short strings; chunk lengths, buffered-byte counts and padding lengths form an unbounded space they touch in fewer than ten points.",
 [MD5, SHA], [("block buffering in update_hash", MD5+" update_hash"), ("padding in finish_hash", MD5+" finish_hash"), ("same pair for SHA-1", SHA)],
 [("remaining_data", "bytes absorbed but not yet compressed, always fewer than a block", MD5), ("message_length", "bits already compressed", MD5)],
 ["HashFunction::update_hash", "HashFunction::finish_hash", "HashFunction::digest_message"])
prop("H02", "BLAKE2 absorbs key and message exactly once, last block flagged, any split",
 "For every key, message and division into update calls, BLAKE2b and BLAKE2s compress exactly the zero-padded key block (if a key is set) followed by the message bytes in order, zero-padding only the last block. Every compression is given the number of bytes absorbed so far (key block included, padding excluded), and the final-block flag is set on the last block and on no other, even when the input ends on a block boundary.",
 ["inputs", "histories", "configurations"], "all messages, keys, output lengths and sequences of update calls",
 "Tests use three messages, one stream and one key; an input that ends exactly on a block boundary, or a counter over several blocks with a key, is never exercised.",
 [B2B, B2S], [("lazy block buffering", B2B+" update_hash"), ("counter and final flag", B2B+" blake2b_compress"), ("key block", B2B+" init_hash"), ("same for BLAKE2s", B2S)],
 [("message_length", "bytes compressed so far", B2B), ("remaining_data_length", "buffered bytes", B2B)],
 ["HashFunction::init_hash", "HashFunction::update_hash", "HashFunction::finish_hash"])
prop("H03", "Compression functions are those of RFC 1321, RFC 3174 and RFC 7693",
 "For every chaining value and every block, one compression step of MD5, SHA-1, BLAKE2b and BLAKE2s computes the function its RFC defines, including the full width of the BLAKE2 byte counter and final flag, starting from the initial values the RFC gives (with the BLAKE2 parameter word mixed in).",
 ["inputs", "configurations"], "all chaining values, blocks, counters and flags",
 "The vectors in the tests never reach a BLAKE2 counter above 2^32 or 2^64, so a wrong counter word is invisible to them, and they sample a handful of 2^512 blocks.",
 [MD5, SHA, B2B, B2S, BM], [("round functions", MD5+" round_function"), ("round function", SHA+" round_function"), ("compression and mixing", B2B+" blake2b_compress"), ("mixing", BM+" blake2_mix")])
prop("H04", "Digest bytes, output_size and block_size agree with the standards",
 "The raw bytes of a digest are the chaining words in the byte order of the standard (little endian for MD5 and BLAKE2, big endian for SHA-1), and their number always equals what output_size reports for the same context: 16 for MD5, 20 for SHA-1, and the requested length for BLAKE2, of which they are the leading bytes. block_size reports the number of bytes one compression consumes.",
 ["inputs", "configurations"], "all digests and all valid BLAKE2 contexts",
 "Tests compare four output lengths; output_size and block_size are never tested at all, although HMAC and HKDF take their layout from them.",
 [MD5, SHA, B2B, B2S], [("raw", MD5+" HashValue::raw"), ("truncation to output_len", B2B+" finish_hash"), ("block_size/output_size", B2B+" BlockHashFunction")])
prop("H05", "HMAC is RFC 2104 for every key length and message",
 "For every hash function, key and message, hmac returns H((K xor opad) || H((K xor ipad) || message)), where K is the key zero-padded to the block size, or the zero-padded digest of the key when the key is longer than one block. In particular it returns a code, and does not panic, for every key length.",
 ["inputs", "configurations"], "all block hash functions and contexts, all key lengths (below, at and above the block size), all messages",
 "Both tests use the three-byte key \"key\"; no test has a key of block size or longer.",
 [HM], [("key normalisation", HM+" hmac"), ("pad", HM+" pad")], None, ["hmac"])
prop("H06", "HKDF is RFC 5869 and returns exactly the requested number of bytes",
 "For every salt, input key material, info and length up to 255 digests, hkdf_derive_key returns the first output_length bytes of T(1) || T(2) || ..., where T(0) is empty, T(i) = HMAC(HMAC(salt, ikm), T(i-1) || info || byte i), and exactly that many. A longer request is refused instead of reusing block counters.",
 ["inputs", "configurations"], "all hash functions, salts, key materials, infos and output lengths",
 "The only test of this function has an empty body.",
 [KD], [("expand loop", KD+" hkdf_derive_key")], None, ["hkdf_derive_key"])
prop("H07", "Hashing never panics or touches memory out of bounds within its limits",
 "For every message, chunking and valid parameter set, and a total length within the length limit of the algorithm, initialising, updating, finishing and reading a digest never panics: no index or slice range is out of bounds, no copy has mismatched lengths, no unsigned subtraction underflows. Every raw-pointer read or write stays inside the slice it was derived from.",
 ["inputs", "histories", "configurations"], "all reachable hash states and all inputs",
 "Bounds depend on the number of buffered bytes (0..64 or 0..128) combined with any input length; tests hit few combinations, and out-of-bounds reads through raw pointers need not crash.",
 [HL, MD5, SHA, B2B, B2S], [("buffer invariant", MD5+" update_hash"), ("length assertion before raw copies", HL+" align_to_u32a_le/be")])
prop("H08", "Unsupported hash parameters and lengths are refused, never mis-hashed",
 "BLAKE2b and BLAKE2s accept exactly the parameters of RFC 7693 (output 1..=64 and key 0..=64 bytes for BLAKE2b, output 1..=32 and key 0..=32 bytes for BLAKE2s) and refuse any other with a panic before hashing. MD5 and SHA-1 refuse a message whose bit length does not fit 64 bits, and a BLAKE2 byte counter never wraps silently.",
 ["configurations", "inputs", "histories"], "all contexts; all message lengths",
 "No test uses an out-of-range parameter, and the length limit needs 2^61 bytes.",
 [B2B, B2S, MD5, SHA], [("parameter assertions", B2B+" init_hash"), ("length guards", MD5+" finish_hash, round_function"), ("counter guard", B2B+" finish_hash")])

# ---------------------------------------------------------------- maths
prop("M01", "Field arithmetic is arithmetic modulo the prime, always fully reduced",
 "For all members a, b of every prime field the macro generates, addition, subtraction, multiplication, sums, products and powers return the member congruent to the exact integer result modulo the prime. Every result lies in 0..p-1, so equal elements always compare equal; zero and one are the neutral elements and remainders are integer remainders.",
 ["inputs", "programs"], "all pairs of field members, all generated field types",
 "Two tests check one addition and one subtraction in one field of 2^89 elements; multiplication, sums, products and powers are untested.",
 [PR], [("operator impls in prime_fields!", PR+" prime_fields!"), ("pow", PR+" PrimeField::pow")])
prop("M02", "Conversions into a prime field are total and congruent to the integer given",
 "Converting a big integer, a number text, or any i64 or u64 (i64::MIN and multiples of the prime included) into a prime field never panics and yields the reduced member congruent to that integer; converting back yields that representative.",
 ["inputs"], "all BigUint values, all digit strings, all 2^64 values of i64 and u64",
 "Tests convert a few small positive numbers; negative numbers other than small Lagrange points and the extreme i64 are not covered.",
 [PR], [("From<BigUint>, FromPrimitive, from_str_radix", PR+" prime_fields!")])
prop("M03", "inverse() is the multiplicative inverse of every non-zero member",
 "For every non-zero member a of a prime field, a * a.inverse() is one: the extended Euclidean algorithm keeps the Bezout identity at every step and ends, on every pair, with a divisor and coefficients that satisfy it.",
 ["inputs", "programs"], "all members of all prime fields",
 "Inverses are only tested indirectly in the field of seven elements.",
 [PR], [("extended_greatest_common_divisor", PR), ("inverse", PR)])
prop("M04", "Byte encodings of field members round-trip; oversized encodings are rejected",
 "from_bytes_le and from_bytes_be return a member exactly when the integer encoded in that byte order is below the prime, and then it is that integer; as_bytes_le and as_bytes_be encode the representative in the matching order, so decoding an encoding gives the member back.",
 ["inputs"], "all byte strings, all members of all prime fields",
 "No test uses these functions.",
 [PR], [("from_bytes_le/be, as_bytes_le/be", PR+" PrimeField")])
prop("M05", "Random field members are uniform over the whole field",
 "generate_random_member draws from the generator it is given a number uniformly below the prime itself, without folding a larger range onto the field, so every one of the p members is equally likely and none outside is returned.",
 ["inputs"], "all random tapes, all prime fields",
 "A distribution over 2^2048 values cannot be sampled; a bias of one value is invisible to any feasible test.",
 [PR], [("generate_random_member", PR)])
prop("M06", "The predefined fields have the documented prime moduli",
 "Every predefined Mersenne field MersenneK has modulus 2^K - 1, the IETF groups have the moduli of RFC 5114 sections 2.1 to 2.3, and every such modulus is prime; field_prime() reports it.",
 ["configurations"], "all 14 predefined fields",
 "Only two of the fourteen moduli are used by any test, and one wrong digit in a 2048-bit constant does not fail a Diffie-Hellman round trip.",
 [PR], [("prime_fields!(...) invocation", PR)])

# ---------------------------------------------------------------- encryption
prop("E01", "Diffie-Hellman: both parties always derive the same secret",
 "For every prime field, generator and random tape, key-pair generation draws one uniformly random private exponent a and returns it with generator^a mod p, and the shared secret is partner_key^private_key mod p. Hence two parties that exchange public keys always derive equal secrets.",
 ["inputs", "programs"], "all fields, generators, private keys",
 "One test runs one exchange in one group; it cannot see an exponent that is truncated, constant, or reduced modulo the wrong number on both sides.",
 [DH], [("generate_asymmetrical_key_pair, generate_shared_secret", DH)])
prop("E02", "RSA is m^e mod n and c^d mod n in little endian, out-of-range refused",
 "RSA encryption interprets the message as a little-endian integer m, refuses m >= n, and returns m^e mod n in little-endian bytes; decryption does the same with d. So for a valid key pair decryption inverts encryption for every accepted message, and no message is silently reduced.",
 ["inputs"], "all messages, ciphers and keys",
 "No test touches RSA.",
 [RSA], [("encrypt_message, decrypt_message", RSA)])

# ---------------------------------------------------------------- sharing
prop("S01", "Shamir shares lie on a random polynomial of degree threshold-1",
 "generate_shares returns count shares (x, f(x)) for x = 1..=count, where f has the secret as constant term and threshold-1 further coefficients, each drawn independently and uniformly from the given generator, evaluated exactly in the field for every count and threshold. A threshold below two, or so many shares that an evaluation point would vanish modulo the prime and expose the secret, is refused.",
 ["inputs", "configurations"], "all secrets, counts, thresholds, fields and random tapes",
 "Tests use thresholds up to 5 in the field of seven elements; large counts or thresholds (where x^k no longer fits a machine word), or counts reaching the modulus, are never tried.",
 [SS], [("generate_shares", SS)])
prop("S02", "Any threshold-many Shamir shares reconstruct the secret, extra ones allowed",
 "Given at least threshold distinct shares of one sharing, in any order, reconstruct_secret returns the Lagrange interpolation at zero through exactly threshold of them, which is the secret. Surplus shares never change the result, and fewer than threshold shares are refused instead of yielding a wrong secret.",
 ["inputs", "configurations"], "all share subsets, orders and thresholds",
 "Every test reconstructs from exactly threshold shares, in order.",
 [SS], [("reconstruct_secret", SS)])
prop("S03", "Linear share operations act on the secrets and keep the evaluation point",
 "Adding or subtracting shares, adding, subtracting or multiplying a scalar, and summing a slice return the share with the same evaluation point whose value is that field operation on the values. Combining shares of different evaluation points is refused, and summing an empty slice gives None.",
 ["inputs"], "all shares and scalars",
 "test_linearity adds values by hand and never calls these functions; sub_scalar and the mismatch checks are untested.",
 [SS], [("LinearSharingScheme for ShamirSecretSharingScheme", SS)])
prop("S04", "Beaver multiplication returns shares of the products, single and batched",
 "For all shared inputs and all triples with c = a*b, multiply returns a share of lhs*rhs, and unbounded_multiply returns, for each pair in order, a share of its product, from as many triples as there are pairs, each used for one pair only.",
 ["inputs", "histories"], "all operand values, triples and batch lengths",
 "In the tests every triple is (1,1,1) and no triple differs between positions, so mixed-up operands or reused triples cannot show.",
 [BV], [("multiply", BV), ("unbounded_multiply", BV)])
prop("S05", "Shared inversion returns shares of the inverses, in order",
 "For every list of shared non-zero values, unbounded_inverse returns one share per input, in order, of its multiplicative inverse whenever the random helpers are non-zero; inverse does so for a single value.",
 ["inputs", "histories"], "all values, helpers and list lengths",
 "Tests cover three values of the field of seven with identical helper shares.",
 [INV], [("unbounded_inverse, inverse", INV)])
prop("S06", "Conditional selection yields lhs for condition 1 and rhs for condition 0",
 "For all shared operands, joint_conditional_selection returns a share of condition * (lhs - rhs) + rhs, so that a shared 1 selects lhs and a shared 0 selects rhs, using one secure multiplication and revealing nothing.",
 ["inputs"], "all conditions and operands",
 "No test calls this protocol.",
 [SEL], [("joint_conditional_selection", SEL)])
prop("S07", "Shared OR is 0 exactly when all bits are 0, for every number of bits",
 "For every non-empty list of shared bits shorter than p-1, unbounded_shared_or returns a share of 1 if any bit is 1 and of 0 otherwise: it evaluates, at the sum of the bits plus one, the polynomial that is 0 at 1 and 1 at 2..l+1. A list too long for those points to be distinct and non-zero in the field is refused instead of giving a wrong answer.",
 ["inputs"], "all bit vectors of all lengths, all fields, all non-zero helpers",
 "Two tests use three bits each in the field of seven elements.",
 [ORF], [("unbounded_shared_or, shared_or", ORF), ("inverse Vandermonde matrix", ORF+" get_inverted_vandermonde_*")])
prop("S08", "Joint random numbers are the sum of one uniform contribution per party",
 "Each party draws one uniform field member from its own generator, distributes it as a secret exactly once, and uses it for nothing else; the result is the sum of all shares received.",
 ["inputs", "schedules"], "all random tapes and party counts",
 "The protocol is only exercised in a doc example that compiles but does not run; tests use a different generator.",
 [RNG], [("generate_random_number_sharing", RNG)])
prop("S09", "Sharing protocols only reveal values masked by fresh single-use randomness",
 "In every multi-party protocol, each value that is revealed is blinded by a jointly random element (subtracted from, or multiplied onto, the secret) that no other revealed value uses as its blind, so that nothing an observer learns depends on the shared inputs, beyond an exceptional zero blind.",
 ["inputs", "histories", "schedules"], "all inputs, all random tapes, all revealed transcripts of multiplication, inversion, OR and selection",
 "Tests look only at results; a protocol that reveals its inputs still computes the right answer.",
 [BV, INV, ORF, SEL], [("masking before reveal_shares", BV+" unbounded_multiply, multiply"), ("helper products", INV+" unbounded_inverse"), ("cancellation factors", ORF+" unbounded_shared_or")])
prop("S10", "Protocol communication never depends on secret values",
 "Which interactive steps a party performs, how many and in which order (reveals, distributions, triples, nested protocols), is a function of public sizes alone and never of share values or revealed values, so all honest parties stay in step.",
 ["inputs", "schedules"], "all share values; all protocols of the sharing crate",
 "Tests have a single party with fixed values; a step skipped for special values only deadlocks or desynchronises real parties.",
 [BV, INV, ORF, SEL, RNG], [("straight-line protocol bodies", BV)])
prop("S11", "Delegated protocols forward every call unchanged to the chosen implementation",
 "For every trait made delegatable, an implementor that selects a delegate (or its own marked implementation) gets, for each required method, exactly one call of the method of the same name on the selected implementation with the same arguments in the same order, whose result is returned unchanged.",
 ["programs"], "all delegatable traits and all implementors",
 "Tests delegate three of the seven traits, with calls in which a swap of equally typed arguments or of two methods would not show.",
 [PROC], [("delegatable_protocol expansion", PROC)])
prop("S12", "The Vandermonde caches are transparent and never block a suspended task",
 "A cached matrix entry is only ever returned for the very field and coordinates it was computed for, so results never depend on what was computed before or concurrently; and no task holds a cache lock while it waits for another computation.",
 ["histories", "schedules"], "all call histories across fields and sizes, all interleavings of tasks",
 "Tests use one field and one matrix size per process, single-threaded.",
 [ORF], [("typemap keyed by field, HashMap keyed by coordinates", ORF+" get_inverted_vandermonde_upper/lower"), ("drop before join", ORF+" get_inverted_vandermonde_upper")])

# ---------------------------------------------------------------- double ratchet
prop("D01", "Every sent message uses its own chain key step and carries its number",
 "The n-th message sent on a sending chain (counting from zero) is encrypted with the n-th message key of that chain and carries the number n, the sender's current ratchet key and the length of its previous sending chain; the chain key always advances, so no two messages share a key.",
 ["histories", "inputs"], "all histories of sends and receives, all messages",
 "The only ratchet test is an empty stub.",
 [DR], [("encrypt_message", DR)], [("sending_chain_key, sending_chain_length", "position in the sending chain", DR)])
prop("D02", "In-order and gapped messages of a chain decrypt with the key of their number",
 "When a message numbered n arrives on the current receiving chain n is not behind it and at most 1000 messages are missing before it, it is decrypted with the n-th message key of that chain, the keys of all skipped numbers are kept under exactly those numbers, and the chain stands at n+1 afterwards.",
 ["histories", "inputs"], "all arrival histories and gaps",
 "No test decrypts a message.",
 [DR], [("decrypt_message", DR), ("detect_missing_messages", DR)], [("receiving_chain_length", "number of the next message of the receiving chain", DR)])
prop("D03", "Late messages decrypt once with the kept key and are reported out of order",
 "A message whose number and ratchet key belong to a kept key, of the current or of an earlier chain, is decrypted with that key, reported as out of order with its plaintext, and the key is discarded; a message behind the chain without a kept key is reported as unknown. Neither disturbs the chains.",
 ["histories"], "all delayed, duplicated and replayed deliveries",
 "No test delivers messages out of order.",
 [DR], [("missed_messages lookup", DR+" decrypt_message")], [("missed_messages", "kept keys by (ratchet key, number)", DR)])
prop("D04", "A new ratchet key advances root, receiving and sending chain exactly once",
 "A message with a new ratchet key first keeps the keys of the rest of the old chain up to the announced length, then derives the new receiving chain from the root with the old private key and the new sending chain with a freshly generated key pair, continues at the message number carried, resets the sending counter and remembers the old sending length; the reply carries the new public key. It is refused only if it announces a length shorter than what was received, or more than 1000 missing messages on either chain.",
 ["histories", "inputs"], "all ratchet histories, gaps across the change, random tapes",
 "No test performs a ratchet step.",
 [DR], [("new-key branch of decrypt_message", DR)])
prop("D05", "Both handshake roles derive matching root and message chains",
 "After the initiator's first key, the responder's sending chain and root come from one root step over the shared secret of its fresh pair and the received key; on any first reply with content and at most 1000 skipped messages the initiator derives the same receiving chain, decrypts with the key of that number, keeps the skipped ones, and performs a second root step with a fresh pair for its own sending chain.",
 ["histories", "inputs"], "all keys, random tapes and first replies",
 "The handshake test is unimplemented.",
 [DR], [("initialize_sending, initialize_receiving, decrypt_first_message", DR)])
prop("D06", "A rejected message leaves the protocol state untouched",
 "Whenever decrypting a message ends in an invalid-header or unknown-header error, every chain key, counter, ratchet key and kept message key is as it was before, so later messages still decrypt.",
 ["histories", "inputs", "fault_sequences"], "all headers, all states",
 "No test sends an invalid header.",
 [DR], [("checks before any mutation", DR+" decrypt_message")])
prop("D07", "No message makes an established session panic",
 "Whatever numbers, ratchet key and payload presence a received message has, decrypt_message on an established session returns plaintext or an error and never panics, and neither does sending.",
 ["inputs", "histories"], "all headers and payloads in all reachable session states",
 "No test decrypts a message, let alone a malformed one.",
 [DR], [("option handling in decrypt_message, encrypt_message", DR)])
prop("D08", "The work a single message header can cause is bounded",
 "The number of key derivations and kept keys that one received message can force is bounded by a fixed limit, whatever counters its header claims.",
 ["inputs", "fault_sequences"], "all headers",
 "A test would need a hostile header; none does.",
 [DR], [("skip limit", DR+" detect_missing_messages")])

# ---------------------------------------------------------------- cross-cutting
prop("X01", "All secret randomness comes from the caller's cryptographic generator",
 "Every key, coefficient and blinding contribution is drawn from the random generator passed in by the caller, which the public interface requires to be a cryptographic one; no library code seeds, creates or consults another source of randomness, time or environment, and no result depends on the randomised order of a hash map.",
 ["programs", "inputs"], "all public functions of all crates",
 "A fixed or weak internal source gives results that pass every functional test.",
 [PR, DH, SS, DR, RNG], [("R: RngCore + CryptoRng bounds", PR+" PrimeField::generate_random_member")])
prop("X02", "Unsafe code is confined to the audited byte-order helpers",
 "Raw-pointer operations, transmutes and calls of unsafe library functions occur only in the byte-to-word copy helpers of the hash crate and in the digest-to-bytes conversions; every other function of every crate is safe code. The helpers are only ever called with a source that covers the whole destination, so no raw access leaves the slices it was derived from.",
 ["programs"], "all functions of all crates",
 "Undefined behaviour need not fail a test.",
 [HL, MD5, SHA], [("align_to_u32a_le/be", HL), ("transmute in raw", MD5)])
prop("X03", "No public operation is an unconditional stub",
 "Every public operation of the library crates can return on some input: none panics unconditionally because it is left unimplemented.",
 ["programs"], "all public functions and trait implementations",
 "A stub that no test calls never fails a test.",
 [RSA, BIT], [("function bodies", "all crates")])
prop("X04", "Library code has no side channel outputs: no printing, files, processes, network",
 "No library function prints, logs, or touches files, environment, processes or network, so no key, share or plaintext leaves through anything but return values and the caller's communication scheme; the only process-wide mutable state is the cache of public matrix entries.",
 ["programs"], "all functions of all crates",
 "Output written during a test is not looked at by the test.",
 [DR, PR, ORF, HL], [("absence of I/O calls", "all crates")])
prop("X05", "Running time does not depend on secret values",
 "The time an operation on keys, shares or private exponents takes is independent of their values.",
 ["inputs"], "all secrets",
 "Timing is not observed by tests.",
 [PR, DH, RSA], [("big integer arithmetic", PR)])
prop("X06", "Digests behave as collision resistant, outputs as pseudorandom",
 "It is infeasible to find two messages with one digest, or to tell HMAC, HKDF and ratchet outputs from random without the key.",
 ["inputs"], "all efficient adversaries",
 "A cryptographic hardness statement cannot be settled by sampling.",
 [MD5, SHA, B2B, HM, KD], [("choice of algorithms", HL)])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
