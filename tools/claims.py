API = "Sound within the interpreter's model for all inputs of all lengths; library calls are replaced by contracts that the checks of the library functions decide. Trusts the clang front end and the interpreter."
T["C01"] = (AI + ": bounds, initialisation, definedness of shifts and divisions over the call graph", "proof", API)
T["C02"] = (AI + ": path events and provenance of what reaches the final test", "proof", API)
T["C03"] = (AI + ": write effects per return path, byte provenance", "proof", API)
T["C10"] = (AI + ": bounds and byte provenance of the output", "proof", API)
T["C11"] = (AI + ": path events, write effects, provenance", "proof", API)
T["C12"] = (AI + ": provenance of random bytes, hash-context typestate", "proof", API)
T["C13"] = (AI + ": data-flow labels (explicit flows)", "proof", API + " Implicit flows are not tracked.")
T["C15"] = (AI + ": error-return propagation per path", "proof", API)
T["C18"] = (AI + ": provenance of key bytes and transform domain", "proof", API)
COD = "Sound within the interpreter's model for all inputs: every result bit is traced to the input bit it copies. Loop bounds are the degrees the library uses. Trusts the clang front end and the interpreter."
for i, w in (("C04", "every path of the signature decoders"), ("C05", "every path of the key decoders"), ("C06", "every path of the encoders")):
    T[i] = (AI + ": bit provenance over " + w, "proof", COD)
RING = "Sound within the interpreter's model for all inputs of the degree analysed (512 in quick; 2 to 1024 in thorough where stated in DESIGN.md). Trusts the clang front end and the interpreter."
T["C08"] = (AI + ": exact integer sums of squares with relational facts, affine forms over GF(q)", "proof", RING)
T["C09"] = (AI + ": intervals and congruences modulo q over all operands", "proof", RING)
T["C19"] = (AI + ": affine forms over GF(q) and monomials of forms, compared with the evaluation matrix at the roots of X^n+1", "proof", RING)
HASH = "Sound within the interpreter's model for all inputs and all lengths up to 2^40; ghost counters relate each store to the bytes absorbed, sampled or delivered before it. Trusts the clang front end and the interpreter."
T["C07"] = (AI + ": ghost sample state, affine forms modulo q, place of each store", "proof", HASH + " Degrees 2, 32, 512, 1024 in quick; 2 to 1024 in thorough.")
T["C20"] = (AI + ": ghost byte counters over update and final, byte provenance of each xor, every fill level of the padding", "proof", HASH + " The permutation itself is analysed for memory safety only.")
T["C16"] = (AI + ": ghost byte counters over the sponge, byte provenance of each xor and output", "proof", HASH + " The permutation itself is analysed for memory safety only.")
T["C14"] = (AI + ": ghost byte and block counters over the context, typestate, byte provenance", "proof", HASH + " One hash context at a time; fewer than 2^62 blocks.")
PYX = "Sound within the model of Python in sa/py.py for all inputs of all lengths; statements outside the model stop the analysis with an error. Trusts CPython's semantics as modelled and the hash libraries."
AIP = "abstract interpretation of the Python source (byte ropes, linear arithmetic, inferred loop invariants, path-sensitive)"
T["Y03"] = (AIP + ": result and exception of every path, place in the bit stream of every coefficient", "proof", PYX + " decompress: inputs up to 2^20 bytes, any slen and n up to 4096.")
T["Y06"] = (AIP + ": a client performing any history of absorb, finalise and read calls", "proof", PYX + " Capacity is taken from the C header.")
T["Y01"] = (AIP + ": a client performing any history of calls on each XOF, ghost sponge states in the signers and the command line tool", "proof", PYX + " The content of KeccaXOF's stream is not claimed; call sites: hash_to_point, the three signers, the command line tool.")
T["Y02"] = (AIP + ": facts implied by every path with a truthy result, ring expressions modulo q with opaque transforms", "proof", PYX + " polyntt (not in the repository) is trusted as the ring and its transform; degrees 512 and 1024 with every XOF, 64 and 256 with the default. Header byte and range of the hint words are not part of the property.")
T["Y04"] = (AIP + ": facts implied by every path on which a signature leaves, provenance of salt and randomness", "proof", PYX + " Sampler, transforms and encoder are opaque (any outcome). Degrees as for Y02.")
T["Y05"] = (AIP + ": every action with keys of every version, taint of secret polynomials, call binding, contract signatures read from the Solidity sources", "proof", PYX + " Implicit flows through branch conditions are not followed.")
T["Y07"] = (AIP + ": ghost position of the stream, the sample pending and the next place, checked at every read, store and back edge", "proof", PYX + " Termination of the rejection loop is not claimed.")
GO = "Sound within the model of Go in sa/go.py for all inputs of all lengths; constructs outside the model are reported. Trusts go/parser and the contracts of the C entry points (C01, C02, C03, C11)."
AIG = "abstract interpretation of the Go syntax tree (path enumeration, linear facts about lengths, content terms of buffers)"
T["G01"] = (AIG + ": size of every buffer handed to C, every index and slice expression", "proof", GO)
T["G02"] = (AIG + ": provenance of every true result", "proof", GO + " abi.Unpack is taken to return as many values as arguments.")
T["G03"] = (AIG + ": typestate of the generator and its lock, provenance of results", "proof", GO + " crypto/rand is trusted.")
SOL = "Sound within the model of Solidity and Yul in sa/sol.py, for all inputs; loops are followed exactly, constructs outside the model are reported. Memory regions are taken to be disjoint; out of gas and checked-arithmetic reverts only refuse."
AIS = "abstract interpretation of the Solidity/Yul syntax tree (canonical polynomials modulo 2^256, linear forms modulo q, exact memory)"
T["S01"] = (AIS + ": the condition of every accepting path must bound the polynomial of all 1024 squares", "proof", SOL)
T["S02"] = (AIS + ": lengths and ranges known on every accepting path", "proof", SOL)
T["S03"] = (AIS + ", with a ghost for the stream position, the pending sample and the number of values stored; loop heads parametrised over the ghosts", "proof", SOL + " The sponge functions are taken by contract; fewer than 2^62 blocks.")
T["S05"] = (AIS + ": canonical linear forms of every output word compared with the definition", "proof", SOL)
T["S06"] = (AIS + ": provenance of the hash, polynomial identity of the relation and of the recovered address, conditions of the accepting path", "proof", SOL + " keccak256 and SSTORE2 are opaque; the sampling itself is S03.")
T["C17"] = ("constant evaluation over the compiler's IR globals and the Python and Solidity syntax trees, every entry compared with the scheme's definition", "proof", "Every entry of every table listed in the evidence. Real-valued definitions are computed with 200 bits and compared to the last place of a double (Python decimal literals: to their printed digits). A constant written inline in code is decided by the check of that code, not here.")
T["S07"] = (AIS + "; words as algebraic normal forms over the lanes of each round for f1600, symbolic bytes and an opaque permutation for the sponge", "proof", SOL + " f1600: all states. Sponge: all contents, for every input length and cut listed in the evidence (lengths up to 279 bytes, quick; 1000, thorough).")
T["Y08"] = ("abstract interpretation of the Python syntax tree (bytes as xor sums of opaque bytes, permutation opaque, states compared with the sponge definition)", "proof", "All contents; lengths and cuts as listed in the evidence (every single length up to two blocks, three in thorough, and cuts around block boundaries). The permutation itself is C21; numpy views as modelled in sa/pysponge.py.")
T["C21"] = ("abstract interpretation of the compiler's IR and of the Python syntax tree (algebraic normal form of every word over the lanes of the round, recognised round by round)", "proof", "All states. Trusts the definition in sa/anf.py and the front ends; numpy's uint64 operations are modelled as 64-bit words.")
NA = {
 "S04": "the decoders are helpers of the Foundry tests (no contract calls them); their inner loop runs over single bits of a 32-bit accumulator that is never masked, so canonicity is a relation between unbounded bit histories of two inputs that the domain of sa/sol.py (polynomials and bit fields of words) does not carry; what a contract accepts from a decoded value is bounded by S01 and S02",
 "N01": "round-trip equality over floating-point sampling and ring arithmetic for all keys: quantifies over numerical results no static argument here can bound; the structural clauses are C10, C11, C18, C06",
 "N02": "rounding error of floating-point transforms is a numerical quantity over all inputs; the exact modular transforms are decided by C19",
 "N03": "a statistical statement about the sampler's output distribution",
 "N04": "timing is a property of compiled code and hardware; source-level constant-time rules would not decide it",
}
