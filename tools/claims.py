CHECKS.update({
 "X01": ("effect analysis over MIR and resolved signatures",
         "Every callee mentioned in any library function is classified; no source of randomness, time or environment other than a generator parameter bound by RngCore + CryptoRng."),
 "X02": ("unsafe-operation effect analysis over MIR",
         "All unsafe operations of all library bodies are enumerated and must lie in the helper class the rule describes."),
 "X03": ("reachability of returns over MIR control flow and the call graph",
         "A public function none of whose paths reaches a return is reported; two on the pinned tree are known findings."),
 "X04": ("effect analysis over MIR",
         "Every callee mentioned in any library function and every static is classified; output, file, process, network and mutable global state are reported."),
})
NA.update({
 "X05": "running time is a property of the machine code and of num-bigint's variable-time arithmetic, which the whole library is built on; no static rule over this source can bound it, and the code makes no constant-time attempt to check",
 "X06": "collision resistance and pseudorandomness are computational hardness assumptions about the algorithms, not facts of the source",
})
AI = "abstract interpretation of MIR: value-graph dataflow with closed-form loop summaries, compared with the standard's term"
CHECKS.update({
 "H01": (AI, "Inductive invariant of the hash state found from the source (which word counts, which buffer is pending) and discharged for init, update, finish and digest_message over symbolic message lengths, all splits included. Disagreements are reported only with a separating valuation of abstract values; what is neither proved nor separated is listed as undecided in the evidence."),
 "H02": (AI, "As H01, for the key block, byte counter and final flag of both BLAKE2 variants, symbolic key and message lengths."),
 "H03": (AI, "The compression step is evaluated on symbolic chaining words and block; normal forms of bit-vector terms are compared with the RFC functions."),
 "H04": (AI, "raw, output_size and block_size as terms over the chaining words and the context, symbolic output length."),
 "H05": (AI, "hmac for an arbitrary implementation of the hash traits, symbolic key and message length, three cases of the key length."),
 "H06": (AI, "hkdf_derive_key for an arbitrary hash, hmac opaque, symbolic lengths; the loop over the blocks is summarised as a recurrence and compared with RFC 5869."),
 "H07": (AI, "Every panic site, index, slice, copy and overflow check reached from the hash operations is an obligation discharged under the path facts; totals within two blocks of 2^64 bits (bytes for BLAKE2) are excluded."),
 "H08": (AI, "Path conditions of every return are decided against the parameter ranges and length limits, totals within two blocks of the limit excluded."),
})
FA = "abstract interpretation of MIR over big-integer polynomial terms, modulo the prime"
CHECKS.update({
 "M01": (FA, "All 14 fields, operands symbolic in 0..p-1; result minus exact result must be a polynomial multiple of p, the result in 0..p-1 by interval and linear facts of the path; sums and products of iterators by loop summaries."),
 "M02": (FA, "All 14 fields, source value symbolic over all of i64/u64/natural numbers; panics must be infeasible."),
 "M03": (FA, "One inductive step of the Euclidean recursion for an arbitrary prime field (Bezout identity), plus termination measure and the coefficient inverse returns."),
 "M04": (FA, "All 14 fields, byte string of arbitrary length and symbolic member."),
 "M05": ("value-graph dataflow of the draws taken from the generator", "All 14 fields; the draw's range, conditions and reduction are compared with the prime. Uniformity of num-bigint's own sampler is assumed."),
 "M06": ("constant evaluation of the parsed literal from MIR", "All 14 moduli; primality by Lucas-Lehmer (Mersenne) and Miller-Rabin with 90 bases (IETF groups)."),
 "E01": (FA, "For every predefined field; commutation (g^a)^b = (g^b)^a mod p closes the argument."),
 "E02": (FA, "For every predefined field, arbitrary key and byte string. That m^(ed) = m needs a valid key pair, which is a hypothesis of the property."),
})
SA = "abstract interpretation of MIR over field polynomials, protocol messages recorded as a value-graph transcript"
CHECKS.update({
 "S01": (FA, "Arbitrary secret, count, threshold and tape; the loops over shares and coefficients are summarised as sums, thresholds 2 to 5 and the general one; legality of parameters decided on every returning and panicking path."),
 "S02": (FA, "Arbitrary distinct points and values; thresholds 1 to 4 with surplus shares, and any number of shares and threshold as a sum of products; rational identities checked by exact cross-multiplication."),
 "S03": (FA, "All seven linear operations on arbitrary shares, slices of 0 to 4 and of any length."),
 "S04": (SA, "Single and batched multiplication for arbitrary operands and triples, 0 to 4 pairs and any number."),
 "S05": (SA, "Single and batched inversion, 0 to 4 values and any number; nested protocols are summarised by their specification."),
 "S06": (SA, "Arbitrary condition and operands, plus the values at conditions 0 and 1 and the transcript."),
 "S07": (SA, "1 to 4 bits: value as rational function of bits and helpers, evaluated at all bit patterns, and invertibility of every constant denominator. Any number of bits: equal to the Newton-basis form with the cached entries opaque, and their defining recursion and divided differences; that these give the interpolation polynomial is Newton's theorem."),
 "S08": (SA, "1 to 3 parties and any number."),
 "S09": (SA, "Revealed values of every protocol for 0 to 4 and any number of inputs: a triangular assignment of masks is searched; a leak is reported only with a certificate (unmasked value, rank of the Jacobian, quadratic character)."),
 "S10": (SA, "Transcripts of all paths of every protocol for 0 to 4 and any number of inputs, with the conditions that separate the paths."),
 "S11": ("abstract interpretation of MIR of macro-generated functions; a witness crate that must compile", "18 forwarding functions of the library and 24 of a witness crate expanded by the current macro."),
 "S12": ("typestate dataflow of lock guards over MIR; value-graph dataflow of cache lookups and stores", "Every suspension point of every library task; both cached functions with hits and misses for symbolic coordinates."),
})
DA = "abstract interpretation of MIR: one inductive step of the session from an arbitrary state satisfying the invariant, keys and derivations uninterpreted"
CHECKS.update({
 "D01": (DA, "encrypt_message for an arbitrary session, the provided single step, and what decrypt_message does to the sending side."),
 "D02": (DA, "decrypt_message for an arbitrary session and message of the current chain, any gap up to the limit; the loops over skipped keys are summarised, kept keys compared under an arbitrary key."),
 "D03": (DA, "decrypt_message for messages whose key is kept, of any chain, and for messages behind the chain without one."),
 "D04": (DA, "decrypt_message for a message with another ratchet key; both root steps, chains, counters and kept keys. A ratchet key seen on an earlier chain and not among the kept ones cannot be told from a new one and is treated as new."),
 "D05": (DA, "initialize_sending, initialize_receiving and decrypt_first_message for arbitrary inputs and any number of skipped replies. Equality of both roles' shared secrets is E01."),
 "D06": (DA, "Every rejecting path of decrypt_message, all parts of the session compared."),
 "D07": (DA, "Every panic site reached by decrypt_message and encrypt_message; the scheme, cipher and derivations supplied by the user are assumed not to panic, session counters to stay below 2^62."),
 "D08": (DA, "Derivations are counted along every path; the count and the number of keys added must be below a constant."),
})
