import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,hook=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},
      "why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":m[0],"where":m[1]} for m in mech],
      "observe_at":observe or [], "hook_needed":hook}})
C="falcon/nistfalcon/src/"
p("C01","C verification never accesses memory outside the caller's buffers",
 "For every signed message of any length and content and every public key of the documented size, opening it (14-bit, 16-bit and recovery variant, SHAKE and Keccak builds) reads only bytes inside the given buffers and writes only inside the message output (whose capacity is the signed length) and its own objects. The same holds for the public-key conversion to recovery form and for the key/signature decoders the openers use. No index, length or shift count leaves its range on the way.",
 ["inputs"],"all byte strings sm of all lengths, all public keys, both builds",
 "KAT programs only open honestly generated signatures; a length or index that is only wrong for malformed input is never reached.",
 [C+"nist.c",C+"nist16.c",C+"epervier16.c",C+"codec.c",C+"vrfy.c",C+"common.c",C+"shake.c",C+"keccak_prng.c",C+"keccak256.c"],
 [("length checks before slicing the signed message","crypto_sign_open / zknox_crypto_sign_open / zknox_crypto_sign_open_epervier"),("max_in_len checks","comp_decode, comp_decode16, modq_decode, modq_decode16")])
p("C02","C opening accepts only after every check has passed",
 "An opening function returns success only on executions in which the public key had the right header and fully decoded, the signature field had the right header and decoded to exactly its declared length, nonce followed by the whole message was hashed to the point, and the final norm test (and, in recovery mode, the comparison of every coefficient of the recovered key) succeeded. Whenever one of these fails the call returns a non-zero code.",
 ["inputs"],"all inputs and all outcomes of each check",
 "Tests only open valid signatures, so a dropped or inverted check on a reject path is invisible to them.",
 [C+"nist.c",C+"nist16.c",C+"epervier16.c"],
 [("early returns","crypto_sign_open, zknox_crypto_sign_open, zknox_crypto_sign_open_epervier")])
p("C03","A failed opening leaves message outputs untouched; success returns the message",
 "When opening fails, neither the message buffer nor the message length is written. When it succeeds, the reported length is exactly the signed length minus the 2-byte length, the 40-byte nonce and the signature field, and the message buffer holds exactly the embedded message bytes.",
 ["inputs"],"all inputs, all return paths",
 "Tests look at outputs of successful calls only and never at outputs after a failure.",
 [C+"nist.c",C+"nist16.c",C+"epervier16.c"],[("memmove/mlen assignment after verification","end of each open function")])
p("C04","Signature decoding in C accepts one encoding per polynomial",
 "The compressed and the 16-bit signature decoders accept only canonical encodings: a negative zero, a coefficient field outside its range, non-zero padding bits, or truncated input makes them report failure, and on success every coefficient was written and lies in the range the encoder can produce (compressed: magnitude at most 2047; 16-bit: a residue below q, centred consistently), each computed from its own field of the input.",
 ["inputs"],"all byte strings offered as encoded signature",
 "The KATs decode encoder output only; malleable encodings are never produced by the encoder.",
 [C+"codec.c"],[("-0, range and padding checks","comp_decode, comp_decode16")])
p("C05","Key decoding in C accepts only canonical encodings",
 "Decoding a public or private key polynomial succeeds only if each coefficient field is in range (public: below q; private: not the forbidden minimum), the padding bits of the last byte are zero, and the whole declared length was consumed; each decoded coefficient equals its field of the input, and failure is reported otherwise.",
 ["inputs"],"all byte strings offered as encoded keys, all supported degrees and widths",
 "Tests decode only keys produced by the encoder.",
 [C+"codec.c"],[("range/padding checks","modq_decode, modq_decode16, trim_i8_decode, trim_i16_decode")])
p("C06","C encoders are bounded, reject what they cannot represent, and agree with decoders",
 "Every polynomial encoder writes no byte beyond the length it reports, never more than the capacity it is given (reporting 0 when that does not fit), and reports 0 for any coefficient outside the representable range. For the fixed-width formats, what the matching decoder returns for the produced bytes is the original polynomial, for every polynomial in range (for the 16-bit signature format: magnitudes up to 2047).",
 ["inputs"],"all coefficient vectors, all capacities",
 "The KATs exercise honest coefficients and one capacity.",
 [C+"codec.c"],[("capacity and range checks","modq_encode, modq_encode16, trim_i8_encode, trim_i16_encode, comp_encode, comp_encode16")])
p("C07","C hash-to-point is exact rejection sampling of the XOF stream",
 "Both hash-to-point functions in use (SHAKE256 and Keccak PRNG; not the unused constant-time variant) consume the XOF output in consecutive 2-byte big-endian samples, discard exactly the samples not below 5*q = 61445, and output exactly n coefficients, the i-th being the i-th kept sample reduced modulo q into [0, q-1]. No output element is left unset and none is written beyond n.",
 ["inputs"],"all XOF output streams, all supported degrees",
 "Vectors cover a few hundred streams; the boundary samples 61445.. and rare residues have probability about 2^-16 each.",
 [C+"common.c"],[("sample < 61445, reduce by 12289","hash_to_point_vartime, keccak_hash_to_point_vartime")])
p("C08","C norm test covers every coefficient and cannot be fooled by overflow",
 "The signature norm tests accept if and only if the sum of squares of all coefficients of both halves is at most the bound fixed for the degree (inclusive): every coefficient of both vectors counts, and no combination of 16-bit coefficients makes the accumulator wrap into an accepting value. The verifier feeds it the centred residues of hash minus signature times key together with the decoded signature.",
 ["inputs"],"all pairs of 16-bit coefficient vectors, degrees 2..1024",
 "Tests contain only short vectors far from wrap-around and never a vector at the bound.",
 [C+"common.c",C+"vrfy.c"],[("saturating accumulator and bound table","is_short, is_short_half, l2bound"),("centring","verify_raw")])
p("C09","C modular arithmetic stays reduced for all operands",
 "Every modular helper returns a value in [0, q-1] for every pair of operands in [0, q-1], so that all intermediate and final values of transforms, key recovery and verification are reduced residues stored without truncation. Addition, subtraction and halving return the residue congruent to the exact result.",
 ["inputs"],"all operand pairs in [0,q-1]; all polynomials of reduced residues",
 "A boundary operand (sum exactly q, difference exactly 0) is hit by chance only and its effect is usually masked.",
 [C+"vrfy.c"],[("conditional add/subtract of q","mq_add, mq_sub, mq_rshift1, mq_montymul, mq_conv_small, mq_div_12289")])
p("C10","C signing stays inside its output and lays it out as documented",
 "For every message length, signing writes at most message length plus the documented overhead to the output buffer and only on success; the result is the 2-byte big-endian signature-field length, the 40-byte nonce, the message, then the signature field starting with the header byte, and the reported total equals the sum of those parts.",
 ["inputs"],"all messages and lengths, all private keys, every outcome of the sampler",
 "KAT messages are at most 3300 bytes and signatures far below the maximum length.",
 [C+"nist.c",C+"nist16.c",C+"epervier16.c"],[("layout code at the end of signing","crypto_sign, zknox_crypto_sign, zknox_crypto_sign_epervier")])
p("C11","C signing fails closed",
 "Signing returns success only if the private key had the right header, all three polynomials decoded and consumed exactly the key, the fourth was completed, the hash absorbed nonce and message without error, and the encoder produced a signature; on any of these failures it returns non-zero and leaves the output buffer and length untouched. The lattice signer only returns a vector that passed the norm test.",
 ["inputs"],"all private-key byte strings and messages",
 "Tests only use well-formed keys.",
 [C+"nist.c",C+"nist16.c",C+"epervier16.c",C+"sign.c"],[("early returns","crypto_sign*, do_sign_dyn loop on is_short_half")])
p("C12","Nonces and seeds are fresh, complete and used as generated",
 "Each signing call draws all 40 nonce bytes and a full separate 48-byte sampler seed from the random source, each key generation draws a full 48-byte seed, and these bytes are used entirely: the nonce hashed is byte for byte the nonce emitted, the sampler generator is initialised, absorbs the whole seed and is flipped before use. No nonce, seed or signature randomness is derived from the message or a constant.",
 ["inputs","histories"],"all calls, all outcomes of the random source",
 "With the deterministic KAT generator a truncated or reused seed changes nothing a test with regenerated vectors notices, and no test inspects randomness.",
 [C+"nist.c",C+"nist16.c",C+"epervier16.c"],[("randombytes calls","crypto_sign_keypair, crypto_sign, zknox_*")])
p("C13","Secrets reach the output only through the lattice signer and key encoder",
 "In signing, no byte written to the output or to its length depends on the private key bytes or the sampler seed other than through the vector returned by the lattice signer; in key generation no public-key byte depends on the seed except through the public polynomial returned by key generation.",
 ["inputs"],"all data-flow paths of signing and key generation",
 "Leaks do not change whether signatures verify.",
 [C+"nist.c",C+"nist16.c",C+"epervier16.c"],[("data flow","crypto_sign*, crypto_sign_keypair*")])
p("C14","C Keccak PRNG keeps its typestate and never drops or overruns data",
 "The Keccak PRNG absorbs exactly the bytes given in order while they fit its buffer and otherwise reports an error without absorbing; absorbing after finalisation, finalising twice and extracting before finalisation report errors and change nothing; extraction fills exactly the requested bytes, each produced block byte being delivered at most once and in order, with block i computed from the state and the 64-bit big-endian counter i. All accesses stay inside the context for every sequence of calls.",
 ["inputs","histories"],"all call sequences and lengths",
 "Tests use short inputs, one finalisation and aligned reads.",
 [C+"keccak_prng.c"],[("finalized flag, buffer positions","i_keccak256_*")])
p("C15","Errors of the hashing layer are never ignored by sign, open or key generation",
 "Whenever absorbing nonce or message into the hash generator reports an error (for example because the input does not fit), signing and opening return non-zero; they never sign or accept a message of which a part was not hashed.",
 ["inputs"],"all message lengths, all call sites of fallible hashing functions",
 "KAT messages stay below the 4096-byte buffer.",
 [C+"nist.c",C+"nist16.c"],[("return codes of inject","crypto_sign, crypto_sign_open and 16-bit variants in the Keccak build")])
p("C16","SHAKE sponge buffer handling is in bounds and separates domains",
 "For every sequence of absorb calls of any lengths, one flip, and any extract calls, the SHAKE context's position stays within the rate, no access leaves the 200-byte state or the caller's buffers, absorbed bytes land at consecutive positions with a permutation exactly when the rate is full, and flip applies the SHAKE domain and end-of-rate padding bits.",
 ["inputs","histories"],"all call sequences and lengths",
 "Tests absorb a few fixed lengths; positions at the rate boundary are reached by few lengths.",
 [C+"shake.c"],[("dptr handling","i_shake256_inject/flip/extract")])
p("C17","All implementations agree on the scheme's constants",
 "The modulus, acceptance bounds, rejection threshold, salt length, transform tables (each entry being the right power of the right root in the right order), inverse-degree and coefficient widths used by the C code, the Python reference and the Solidity contracts agree with each other and with the scheme's definition.",
 ["configurations"],"every table entry and constant in every implementation",
 "Tests of each language use its own constants and check few vectors; degrees other than 512 are not tested.",
 [C+"common.c",C+"vrfy.c",C+"codec.c","pythonref/falcon.py","pythonref/common.py","src/ZKNOX_falcon_utils.sol","src/ZKNOX_NTT_falcon.sol"],[("constant tables","l2bound, GMb, iGMb, Params, psi tables")])
p("C18","Key generation publishes and stores the key in the documented form, and openers read it in that form",
 "When key generation returns success the public key is the header byte followed by the encoding of the generated public polynomial (coefficient form in the 14-bit format, plain NTT form in the 16-bit format) and the private key is the header byte followed by the encodings of f, g and F of the same generation, filling the key exactly; when any encoding fails it returns non-zero. Openers bring the decoded key from that form into the form verification needs, and the recovery-form conversion keeps the key polynomial.",
 ["inputs"],"all seeds and random draws, all outcomes of the encoders",
 "Tests never call the conversion together with key generation on more than one key, and encoder failures never occur in them.",
 [C+"nist.c",C+"nist16.c",C+"epervier16.c"],[("encoding steps","crypto_sign_keypair, zknox_crypto_sign_keypair, *_from_seed, zknox_pk_epervier, to_monty")])
p("C19","C ring transforms and ring functions compute the exact negacyclic algebra",
 "For every polynomial of reduced residues the forward transform leaves the evaluations at the n distinct roots of X^n+1 (each root once, with the scale the interface documents: plain or Montgomery), and every function built on it returns, coefficient by coefficient, exactly the specified element of Z_q[X]/(X^n+1): verification tests s2*h-c0 (up to sign), public-key computation returns g/f, private-key completion g*F/f with every coefficient of magnitude at most 127, recovery (c0-s1)/s2 (in transformed form for the hint variant), and the hint is the inverse of the product of all evaluations of s2. Each of them reports failure when, and apart from its other documented tests only when, some evaluation of the divisor is zero.",
 ["inputs"],"all polynomials with reduced residues, degree 512 (all supported degrees in the thorough check)",
 "Vectors exercise a few hundred polynomials of one degree; a wrong table entry or butterfly shows for the coefficients it touches, but one wrong only for rare operands, for zero evaluations or in the recovery functions (whose output no vector compares) does not.",
 [C+"vrfy.c"],[("butterflies and tables","mq_NTT, mq_iNTT, GMb, iGMb"),("ring functions","verify_raw, compute_public, complete_private, verify_recover, verify_recover_epervier, hint_epervier, is_invertible")])
p("C20","C Keccak-256 absorbs exactly the message and pads it once",
 "For every sequence of keccak_update calls of any lengths after keccak_init, every byte of the input is absorbed exactly once and in order (through the block buffer or directly), the state is permuted exactly when a whole 136-byte block has been absorbed, and the fill level kept in the context is the number of bytes pending, below the block size. keccak_final pads the pending bytes with 0x01, zeros and 0x80 in the last byte (0x81 when only one byte is free), permutes once and returns the first 32 bytes of the state.",
 ["inputs","histories"],"all call sequences and lengths, all alignments of the input",
 "Tests hash a few lengths in one or two calls; block-boundary fill levels and unaligned inputs are hit by few of them.",
 [C+"keccak256.c"],[("block buffer","keccak_update"),("padding","keccak_final")])
p("G01","Go bindings never hand C a buffer that is too small or missing",
 "Every call from the Go package into the C library passes buffers at least as large as the C function may read or write for the lengths passed, for all caller-supplied slices: key slices of the exact documented length, a signed-message buffer that scales with the message, a message buffer that scales with the signed message, and no element address taken of a possibly empty slice; other inputs yield an error, not a crash.",
 ["inputs"],"all slices passed by callers, including empty, short and long ones",
 "The Go test signs and verifies one 16-byte message.",
 ["falcon/falcon.go"],[("buffer declarations and calls","GenerateKeypair, SignMessage, VerifySignature")])
p("G02","Go verification and the precompile report success only for a verified message",
 "Go verification returns true only if the C opener returned zero and the recovered message equals the given one; all other outcomes return false or an error. The precompile returns the word one only when ABI decoding succeeded and verification returned true without error.",
 ["inputs"],"all inputs, all outcomes of the C call",
 "Tests contain one positive case.",
 ["falcon/falcon.go","geth/contracts.go"],[("return code checks","VerifySignature, falconvrfy.Run")])
p("G03","Go key generation and signing use fresh entropy and return exactly what C produced",
 "Every key generation and signature made through the Go package draws from the C library's process-wide generator only after it was seeded with 48 bytes of operating-system entropy obtained without error, and no other call draws from it in between. Key generation returns exactly the 897 public and 1281 secret bytes the C library wrote, signing signs exactly the caller's message with the caller's key and returns exactly the bytes the C library reported, and a failure of the C library is reported as an error.",
 ["inputs","schedules","faults"],"all inputs, all outcomes of the C calls and of the entropy source, concurrent callers",
 "The library's generator is deterministic when unseeded, which one test run cannot show.",
 ["falcon/falcon.go","falcon/nistfalcon/src/katrng.c"],[("seeding and locking","GenerateKeypair, SignMessage"),("results","GenerateKeypair, SignMessage")])
p("Y01","Python XOFs keep their typestate",
 "In every Python XOF of the project, absorbing after finalisation, finalising twice and reading before finalisation are refused for all call sequences, and in every signing, verification and command-line path an XOF that is read has been finalised first and has absorbed salt before message.",
 ["histories","inputs"],"all call sequences; all call sites",
 "Tests call in the correct order and several modules are not importable in the test environment.",
 ["pythonref/keccak_prng.py","pythonref/blake2s_prng.py","pythonref/shake.py","pythonref/keccaxof.py","pythonref/falcon.py","pythonref/sign_cli.py"],[("finalized flag","KeccakPRNG, Blake2sPRNG, SHAKE"),("flip before read","hash_to_point, signature()")])
p("Y02","Python verifiers return a truthy result only after all checks",
 "Python verification returns success, and key recovery returns a key, only on paths where the signature encoding was accepted, the norm of both halves over all coefficients was compared with the bound, and (recovery modes) the inverse hint was multiplied with the transformed signature and every product compared with one; the accepted result depends on the message, the salt, the signature and the key.",
 ["inputs"],"all paths of verify/recover in the three Python schemes",
 "The modules that need polyntt are not run by the reliable tests, and tests rarely try forged inputs.",
 ["pythonref/falcon.py","pythonref/falcon_recovery.py","pythonref/falcon_epervier.py"],[("early returns","PublicKey.verify, RecoveryModePublicKey.recover, EpervierPublicKey.recover")])
p("Y03","Python signature and key decoding is total and canonical",
 "For every byte string, Python signature decoding returns either the failure value or exactly n coefficients and never raises; it rejects negative zero, truncated input and non-zero bits after the last coefficient; public-key decoding rejects wrong lengths for the header, unknown headers, coefficients not below q and wrong coefficient counts.",
 ["inputs"],"all byte strings",
 "Tests round-trip encoder output only.",
 ["pythonref/encoding.py","pythonref/falcon.py"],[("checks","decompress, PublicKey.from_bytes")])
p("Y04","Python signers emit only checked signatures",
 "Python signing returns a signature only on iterations in which the norm of the sampled vector over all coefficients of both halves is at most the bound, the encoder accepted it, and (recovery modes) the second half is invertible; the salt in the output is the salt that was hashed, and its bytes and the sampler randomness come from the caller's random source.",
 ["inputs"],"all iterations of the rejection loop",
 "Rejection branches are rarely taken and the modules are not importable in the test environment.",
 ["pythonref/falcon.py","pythonref/falcon_recovery.py","pythonref/falcon_epervier.py"],[("rejection loop","sign")])
p("Y05","Command-line signing is consistent and does not expose keys",
 "For every supported version string the command-line tool signs and verifies with the same XOF and key class, every call it makes to its own functions passes the arguments the callee takes, no variable is used before assignment on any path, secret polynomials are written only to the private-key file, the per-signature randomness depends on the secret key as well as the message, and every contract call names a function the contract declares and passes it as many arguments as it takes, each made from the input it stands for.",
 ["inputs","programs"],"all actions and versions of the command line tool",
 "The command line tool has no tests.",
 ["pythonref/sign_cli.py"],[("dispatch on version and action","cli, signature, verify_signature")])
p("Y06","The Keccak and Blake2s PRNGs of the Python reference mirror the C PRNG",
 "The Python Keccak PRNG and Blake2s PRNG process absorb, finalise and extract in the same way as the C PRNG: same refusal conditions, same block input (state followed by the 8-byte big-endian counter starting at zero and advanced once per block), leftover bytes served first, exactly the requested number of bytes returned.",
 ["inputs","histories"],"all call sequences and lengths",
 "Tests compare a handful of outputs for fixed inputs.",
 ["pythonref/keccak_prng.py","pythonref/blake2s_prng.py",C+"keccak_prng.c"],[("extract loop","KeccakPRNG.extract, Blake2sPRNG.extract")])
p("Y07","Python hash-to-point is exact rejection sampling",
 "For every message and salt and every XOF, the Python hash-to-point absorbs salt (for the Blake2s XOF: its digest) then message, takes two-byte big-endian samples from the stream in order without skipping, reusing or splitting any, keeps exactly those below floor(65536/q)*q = 61445, stores each kept sample reduced modulo q in the next place, and returns exactly n of them.",
 ["inputs"],"all messages, salts, XOFs and stream contents",
 "falcon.py is not importable in the test environment, and samples at the rejection boundary are rare.",
 ["pythonref/falcon.py"],[("rejection loop","hash_to_point")])
p("S01","On-chain norm checks count every coefficient of both halves",
 "Every Solidity verifier accepts, or recovers an address, only if the sum of squares of the centred representatives of all 512 coefficients of both signature halves is at most the published bound; no coefficient is skipped and none is counted from outside the arrays.",
 ["inputs"],"all signatures, hashes and keys",
 "Forge tests (not runnable here) verify honest signatures, all of whose coefficients are small.",
 ["src/ZKNOX_falcon_core.sol","src/ZKNOX_epervier.sol","src/ZKNOX_ethepervier.sol"],[("norm loops","falcon_normalize, recover")])
p("S02","On-chain verifiers accept only canonical, well-sized inputs",
 "Every Solidity entry point rejects a salt that is not 40 bytes, signature or key arrays of the wrong length, coefficients not below q, and hints not below q; the byte-string entry points reject a signature whose length is not exact.",
 ["inputs"],"all calldata",
 "Forge tests pass well-formed calldata.",
 ["src/ZKNOX_falcon.sol","src/ZKNOX_ethfalcon.sol","src/ZKNOX_epervier.sol","src/ZKNOX_ethepervier.sol","src/ZKNOX_falcon_core.sol"],[("require/revert checks","verify, recover")])
p("S03","On-chain hash-to-point samples exactly like the specification",
 "The Solidity hash-to-point functions hash salt followed by message (the proof-of-concept TETRATION variant: message followed by salt), take 16-bit big-endian samples of the stream in order, store exactly those below 61445, reduced modulo q, one after the other, and return an array of exactly 512 values. The stream is SHAKE256 output for NIST, keccak256(state, 64-bit big-endian counter from 0) for EVM, and iterated keccak256 for TETRATION.",
 ["inputs"],"all salts and messages",
 "A few vectors only, and boundary samples are rare.",
 ["src/ZKNOX_HashToPoint.sol"],[("sampling loops","hashToPointNIST, hashToPointEVM, hashToPointTETRATION")])
p("S04","On-chain signature decompression is canonical and in bounds",
 "The Solidity decoders of NIST-format keys and signatures read only inside the given bytes, reject negative zero, out-of-range coefficients and non-zero padding, and produce exactly 512 coefficients below q.",
 ["inputs"],"all byte strings",
 "KAT vectors only.",
 ["src/ZKNOX_falcon_encodings.sol"],[("decoder loops","_decompress_sig, decompress_KAT and helpers")])
p("S05","On-chain transforms and packing are exact",
 "The Solidity forward transform puts at place i the evaluation of the polynomial at 49^(2*brv9(i)+1) modulo 12289, the inverse transform restores the coefficients exactly, the pointwise product and the half product are exact modulo q, and Expand, Compact and Swap are the packing of sixteen 16-bit fields per word, its inverse and the reversal, for every input.",
 ["inputs"],"all polynomials; every table entry is reached",
 "Forge tests (not runnable here) multiply a few vectors; a wrong table entry shows only on some inputs.",
 ["src/ZKNOX_NTT_falcon.sol","src/ZKNOX_falcon_utils.sol"],[("transforms","_ZKNOX_NTTFW_vectorized, _ZKNOX_NTTINV_vectorized, _ZKNOX_VECMULMOD, _ZKNOX_NTT_HALFMUL_Compact, Expand, Compact, Swap")])
p("S06","On-chain verification checks the scheme's relation on exactly the given salt, message and key",
 "verify accepts exactly when the norm of (H(salt,message) - s2*h, s2) is within the bound, H being the contract's own hash-to-point of the given salt and message (for the byte-string form: the first 40 bytes and the digest) and h the given key (the array stored at the address in the key bytes); recover returns the low 160 bits of the Keccak-256 of NTT(H(salt,message) - s1) / NTT(s2), only when the hint proves the inverse; well-formed short signatures are accepted.",
 ["inputs"],"all signatures, salts, messages and keys",
 "Forge tests verify a few honest signatures and few forged ones.",
 ["src/ZKNOX_falcon.sol","src/ZKNOX_ethfalcon.sol","src/ZKNOX_epervier.sol","src/ZKNOX_ethepervier.sol","src/ZKNOX_falcon_core.sol"],[("entry points","verify, recover, falcon_core, falcon_normalize")])
p("S07","On-chain SHAKE256 is the standard sponge",
 "For every input, contexts made by shakeInit (or zeroed) and fed by any sequence of shakeUpdate calls, then either padded by shakePad and read by any sequence of shakeSqueeze calls or read once by shakeDigest, deliver exactly SHAKE256 of the concatenated input (rate 136, suffix 0x1f, last bit 0x80), and f1600 is Keccak-f[1600] for every state.",
 ["inputs","histories"],"all contents; every length and cut listed in the evidence; all 2^1600 states of the permutation",
 "Foundry tests hash three short strings; block boundaries, split updates and split squeezes are not sampled, and there is no Solidity compiler among the stable tests.",
 ["src/ZKNOX_shake.sol"],[("sponge","shakeAbsorb, shakeUpdate, shakePad, shakeSqueeze, shakeDigest, shakePermute"),("permutation","f1600")])
p("C21","Every Keccak permutation is Keccak-f[1600]",
 "The permutations of shake.c (inner SHAKE256), keccak256.c (Keccak-256 and the Keccak PRNG) and pythonref/keccak.py map every 1600-bit state to the state FIPS 202 defines, with control flow that does not depend on the state.",
 ["inputs"],"all 2^1600 states",
 "Known-answer tests feed a handful of states; a deviation tied to a state pattern is not sampled.",
 ["falcon/nistfalcon/src/shake.c","falcon/nistfalcon/src/keccak256.c","pythonref/keccak.py"],[("permutations","process_block, sha3_permutation, Keccak.F1600")])
p("Y08","Python SHAKE and Keccak objects are the standard sponge",
 "For every input and every way of cutting the input into absorb (or update) calls and the output into squeeze (or read) calls, KeccakHash of pythonref/keccak.py and SHAKE of pythonref/shake.py return exactly the sponge output over Keccak-f[1600] of the concatenated input: rate and domain byte as given (SHAKE: 136 and 0x1f), the domain byte right after the input, 0x80 in the last byte of the block, exactly the number of bytes asked for, also when input or output ends at a block boundary.",
 ["inputs","histories"],"all contents; every length and cut listed in the evidence",
 "test_shake.py and test_keccak.py hash a few strings; block boundaries of split reads and writes are not sampled.",
 ["pythonref/keccak.py","pythonref/shake.py"],[("sponge","KeccakHash.absorb, pad, permute, squeeze, update; SHAKE.update, flip, read")])
p("N01","Sign-then-verify round trip",
 "Every signature produced by any signer for a key pair it generated verifies under every compatible verifier (C, Python, Solidity, Go).",
 ["inputs"],"all keys, messages and random choices","Tests sample 100 vectors per variant.",
 [C+"sign.c",C+"vrfy.c","pythonref/falcon.py"],[("whole scheme","sign/verify")])
p("N02","The floating-point transforms are accurate",
 "The FFT, its inverse and the floating-point polynomial operations used by signing and key generation (C and Python) approximate the exact transform within the error the scheme's analysis assumes, for all inputs.",
 ["inputs"],"all polynomials","Vectors sample a few polynomials.",
 [C+"fft.c",C+"fpr.c","pythonref/fft.py"],[("butterflies","FFT, iFFT, poly_*_fft")])
p("N03","The Gaussian sampler has the specified distribution",
 "Sampled vectors follow the specified discrete Gaussian to within the stated distance, independent of secrets.",
 ["inputs"],"all centres and deviations","Statistical tests bound a few moments.",
 [C+"sign.c","pythonref/samplerz.py"],[("sampler","gaussian0_sampler, samplerz")])
p("N04","Signing time does not depend on secrets",
 "The time and memory access pattern of signing are independent of the private key.",
 ["inputs"],"all keys","No timing tests exist.",
 [C+"sign.c",C+"fpr.c"],[("constant-time coding","sampler and emulated floating point")])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+"\n")
print(len(P))
