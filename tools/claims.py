CLAIM["C01"] = (AI, BASE + "The isogeny walks, field primitives and the Keccak permutation are uninterpreted functions of exactly their operands; the result of Decapsulate is compared, term by term, with an independently written SIKE transcript.")
CLAIM["C02"] = (AI, BASE + "Same domain as C01, for Encapsulate with a random source that may fail at any byte.")
CLAIM["C03"] = (AI, BASE + "Every integer array reachable from the KEM object is replaced by unknown content and hash objects by an unknown reachable state before the checked call; in addition explicit earlier operations, failures and re-allocations are analysed.")
CLAIM["C04"] = (AI, BASE + "Rejections are decided for every length in a range around the accepted one and every key variant.")
CLAIM["C05"] = (AI, BASE + "One, two and three recipients and fewer recipients than allocated are analysed for each field, and 260 (P434), 17 (P503) and 33 (P751) recipients with a random source that does not fail.")

CLAIM["C06"] = (AI, BASE + "CSIDH key generation and derivation are uninterpreted functions of key bytes that may fail at any call; the ciphertext is compared with plaintext xor SHAKE128(agreed secret) for every plaintext length analysed.")
CLAIM["C07"] = (AI, BASE + "The random source delivers named symbolic bytes, may fail after any number of them and may deliver short; key generation of SIDH and CSIDH, both SIKE encapsulations, multi-recipient encapsulation, PKE and the field sampling of CSIDH are analysed up to every failure point. Randomness inside drbg is C19's.")
CLAIM["C11"] = ("abstract interpretation over typed SSA (group-order domain)", BASE + "Any coefficient; points are known by their curve, random draw and order; scalar multiplication, doubling and isogenies act on orders exactly (the formulas themselves are C26). Draw patterns (rejected, inconclusive, just above and below the bound, foreign factor, both sides) are enumerated, not exhausted. Comparison, zero, equality and residue tests are compared with their definitions for every operand.")
CLAIM["C13"] = (AI, BASE + "Random bytes are symbolic; the patterns of accepted and rejected bytes are enumerated (none, alternating, whole blocks, block edges, most), every accepted or rejected byte value is covered at once. Field elements are tracked from the random source to their use.")
CLAIM["C29"] = ("abstract interpretation over typed SSA (group-order domain)", BASE + "The whole group action runs in a domain where points are known by curve, draw and exact order; the formulas it is built from (xMul, isogenies, ladder) are decided again by this check (C26 in dh/csidh). Exponent vectors (every exponent from -8 to 7 on every prime, extremes, single primes, 32 scattered vectors) and draw patterns (rejected elements, one-sided points, missing primes) are enumerated: the statement's quantifier over all keys and draws is covered only by these classes.")
CLAIM["C08"] = (AI, BASE + "Random bytes are distinct symbolic bits; every bit of the generated scalar is compared with the documented key space for every field and variant, including short reads.")
CLAIM["C09"] = (AI, BASE + "Every combination of field and torsion group of both keys is analysed.")
CLAIM["C10"] = (AI, BASE + "Every field and key variant; import lengths around the accepted one; the previous key content is unknown.")
CLAIM["C14"] = (AI, BASE + "Object states are those reached by symbolic message bytes of the analysed lengths; the Keccak permutation and the SM3 block function are uninterpreted.")
CLAIM["C15"] = (AI, BASE + "The Keccak permutation is uninterpreted; the absorbed and squeezed bytes are compared with a reference sponge for every rate and for chunk lengths around every block boundary.")
CLAIM["C16"] = (AI, BASE + "Operations on the original and on the clone are interleaved and both compared with the reference sponge.")
CLAIM["C17"] = (AI, BASE + "Lengths of N and S around every change of the length encoding and of the padding; contents are free.")
CLAIM["C18"] = (AI, BASE + "The SM3 block function is uninterpreted; message lengths cover all residues and chunk boundaries of one to three blocks and the 64-bit length encoding.")
CLAIM["C19"] = (AI, BASE + "AES is an uninterpreted function of key and block (both implementations, chosen by symbolic CPU flags); outputs are compared term by term with the SP 800-90A algorithm.")
CLAIM["C20"] = (AI, BASE + "Key expansion and the cipher rounds are uninterpreted; the wrapper code of both implementations is analysed for every key length 0..64, buffer length and overlap distance in range.")
CLAIM["C12"] = (AI, BASE + "Import strings of every length around the accepted one and of free content; the previous key content is unknown; every exported byte is compared with the imported one.")
CLAIM["C26"] = (AI, BASE + "Field elements are canonical quotients of multivariate polynomials over the field, field primitives are ring operations on them; every formula is compared, as a rational function, with the textbook expression, for separate and documented overlapping operands. Scalar multiplications (the three-point ladder of every SIDH field, xMul of CSIDH) are followed with every bit of the scalar unknown, in a domain where a point is [a]Q+[b]P with coefficients polynomial in the bits. Repeated doubling and tripling is decided for 1..48 steps and selected counts up to 160; isogenies of degree above 5 for known degrees only. Special operands on which a formula's numerator and denominator both vanish are outside the domain.")
CLAIM["C24"] = ("interprocedural dataflow of CPU-feature requirements over the assembly and SSA call graph, with dominating flag tests", "The real source of every build configuration is analysed: each assembly instruction is classified by the CPU extension it belongs to; the requirement is propagated backwards through jumps and calls until a test of the matching detection flag dominates it; nothing may reach an exported entry point. Feature flags themselves are compared with their CPUID leaf, register and bit by abstract interpretation. Trusts the Go assembler's listing, golang.org/x/sys/cpu and golang.org/x/tools/go/ssa.")
CLAIM["C25"] = ("type checking of the configuration matrix and a frame, argument-layout and symbol-bounds analysis of the assembler listing", "amd64, arm64, riscv64, 386 and s390x, each with and without the noasm tag, are type-checked from source; every assembly routine is matched with its one Go declaration. Trusts go/types and the Go assembler's listing.")
CLAIM["C21"] = ("interprocedural side-effect (mod/ref) analysis over SSA and over the provenance of pointers in the assembler listing", "Bottom-up write summaries with field-based contents of memory; every exported operation of every public package is judged. Standard-library functions are analysed from their source; interface calls on foreign objects (random sources, writers) are assumed to keep to the io contracts. Writes to the scratch buffer embedded in CSIDH keys are allowed, writes to their values are not.")
CLAIM["C22"] = ("secret-dependence (taint) analysis by path-complete abstract interpretation of the Go code, and forward taint dataflow over the assembler listing", BASE + "Every value derived from a secret atom is secret; a branch, index, slice bound, length, division, signed shift count or variable-time library call whose operand is secret fails. All field/variant combinations of key generation, derivation, encapsulation and decapsulation are analysed; the bodies of portable field arithmetic and Keccak with every operand secret; each assembly routine by taint dataflow with its data operands secret. Micro-architectural effects other than control flow, addresses and division are outside.")
CLAIM["C23"] = ("constant evaluation of package initialisers with algebraic checks on the resulting tables", "Initialisers and constant declarations of the current source are folded to integers; every table entry is checked against its defining equation with exact integer and Fp2 arithmetic in the checker (curve membership, point orders, independence, strategy shape, S-box and T-table definitions, LFSR round constants). Constants found under another name than today are not checked.")

CLAIM["C27"] = ("abstract interpretation of Go and assembler code in a domain of integer polynomials over operand words with interval bounds", BASE + "Every word is an integer polynomial in the operands' words; a carry or borrow is the exact quotient of the sum it comes from; the result is decided congruent to the specified polynomial, and inside its documented range, for all operands at once. The portable code and every assembly routine on amd64 (each CPU-feature variant) and arm64 is covered. Constant-time selections are decided case by case. The assembler listing is trusted; the AES, Keccak and CPUID assembly is not arithmetic and not part of this.")
CLAIM["C30"] = ("abstract interpretation of Go and assembler code over words in algebraic normal form", BASE + "Words are xors of masked products of shifted words; table lookups are rewritten as GF(2)-linear maps of the AES S-box, verified from the table's entries; the normal form of every output word is compared with that of the standard's algorithm for all inputs at once, in Go, amd64 and arm64 assembly. Messages of one to four SM3 blocks; longer runs follow only by the loop's uniformity. The assembler listing and the semantics of the AES instructions are trusted.")
CLAIM["C28"] = ("abstract interpretation in domains of isogeny walks, composed with the decisions on formulas, arithmetic and constants", BASE + "Both parties' operations (SIDH in memory and as bytes, SIKE and mKEM round trips, CSIDH) are interpreted one after the other; a curve is identified by the kernel (SIDH) or the exponent vector (CSIDH) that leads to it, which is the theorem on isogenies with the same kernel and on the class group action, trusted here. The secrets must be the same term for all keys and messages (CSIDH: for enumerated exponent vectors and point histories). The lemmas this rests on (C23 constants, C26 formulas, C27 arithmetic, C29 action, C31 walks) are decided again by this check.")
CLAIM["C31"] = ("abstract interpretation in a domain of isogeny walks (curve, role and order of every point)", BASE + "Curves and points are recognised as rational functions of the points they come from, so the way isogenies are organised does not matter; point multiplication, the three-point ladder, batch inversion and the j-invariant are summarised by their meaning (C26), field operations are exact (C27). That the named points generate the torsion groups is C23; the tables, formulas, ladders (C26) and field arithmetic (C27) it rests on are decided again by this check. One special case is excluded: a first kernel of order 4 above (0,0), which SIKE's choice of points rules out.")
