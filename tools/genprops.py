#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so that the JSON stays valid).
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "mechanism": [{"name": a, "where": b} for a, b in mech],
                          "observe_at": observe or []}})

SIKE = ["dh/sidh/sike.go", "kem/mkem/sike.go"]
p("C01", "SIKE decapsulation implements implicit rejection exactly",
  "For every key pair and every ciphertext of the right size, SIKE Decapsulate returns nil and writes H(m || ciphertext), where m is the decrypted message if re-encrypting m under the given public key reproduces the whole public-key part of the ciphertext bit for bit, and the private key's secret value S otherwise. Nothing else of the ciphertext, the key or the KEM object's past influences the output, and only the first SharedSecretSize bytes of the secret buffer change.",
  ["inputs", "histories"], "all ciphertext bytes, all key pairs, all earlier uses of the KEM object, the three parameter sets, both SIKE implementations (dh/sidh and kem/mkem)",
  "Tests corrupt one or two ciphertext bytes and compare with KATs; a comparison that skips bytes, a select on a partial mask or a hash over part of the ciphertext survives them.",
  SIKE + ["dh/sidh/common/utils.go"],
  [("constant-time comparison of re-derived and received public key", "KEM.Decapsulate"), ("select between m and S", "common.Cpick")], ["KEM.Decapsulate"])
p("C02", "SIKE encapsulation writes one transcript that decapsulation re-derives",
  "SIKE Encapsulate draws a fresh message m from the RNG, writes exactly CiphertextSize bytes c0||c1 with c0 the public key of r = G(m || pk) reduced to the 2-torsion key space and c1 = m xor F(j), and writes H(m || c0 || c1) to the first SharedSecretSize bytes of the secret buffer. Bytes of larger caller buffers beyond those sizes neither change nor influence the result.",
  ["inputs", "histories"], "all RNG outputs, public keys, buffer lengths at least the required size, and earlier uses of the object",
  "Round-trip tests use exactly sized buffers and fresh or regularly reset KEM objects, and only sampled randomness.",
  SIKE, [("transcript hashing", "KEM.Encapsulate"), ("ciphertext layout", "KEM.generateCiphertext")], ["KEM.Encapsulate"])
p("C03", "KEM and PKE results do not depend on the object's earlier use",
  "The outputs of Encapsulate and Decapsulate of the SIKE KEM and of the mKEM, and of the PKE and multi-recipient PKE, are determined by their arguments, the object's parameter set, (for mKEM decapsulation) the stored ephemeral key and the random bytes drawn during the call. Scratch buffers and hash objects left in any state by earlier, possibly failed or panicking, calls and by Reset never influence them.",
  ["histories", "fault_sequences"], "all sequences of earlier calls on the same object, abstracted as arbitrary contents of every scratch buffer and an arbitrary state of the hash object",
  "Tests call a handful of fixed sequences and mostly allocate a new object per operation.",
  SIKE + ["kem/mkem/csidh.go"], [("hash Reset before every absorb", "KEM.*, PKE.*"), ("scratch buffers fully overwritten before use", "c.msg, c.secretBytes, c.j, c.ct0")], ["KEM", "MultiKEM", "PKE", "MultiPKE"])
p("C04", "SIKE and mKEM reject malformed calls before producing output",
  "Encapsulate and Decapsulate of the SIKE KEM and of the mKEM panic, without having written any byte of the caller's buffers, when the object is unallocated, a key is not a SIKE key, the secret or ciphertext buffer is too small for encapsulation or the ciphertext has any length other than the expected one for decapsulation. Every call with arguments of the documented sizes and types is accepted.",
  ["inputs"], "all buffer lengths, all key-variant values, allocated and unallocated objects, three parameter sets",
  "Tests try one off-by-one length per argument; every other length and every other variant value is unexplored.",
  SIKE, [("guards at the top of each operation", "KEM.Encapsulate, KEM.Decapsulate, MultiKEM.*")], ["KEM", "MultiKEM"])
p("C05", "Multi-recipient KEM: one message, per-recipient masks, full re-encryption check",
  "mKEM Encapsulate draws one fresh message m, stores the ephemeral public key of G1(m), gives every recipient i the ciphertext m xor G2(j_i) with j_i agreed with that recipient's key, and outputs G3(m) as secret; the three hashes are domain separated. mKEM Decapsulate outputs G3(m') only if both the stored ephemeral key and the recipient's ciphertext are reproduced in full by re-encrypting m', and G3(S) otherwise.",
  ["inputs", "histories"], "all recipient lists, ciphertexts, stored ephemeral keys and earlier object states, three parameter sets",
  "Tests check agreement for a few recipients and one or two corruptions, always decapsulating with the object that just encapsulated.",
  ["kem/mkem/sike.go"], [("domain separators G1,G2,G3", "package variables"), ("two comparisons combined into one mask", "MultiKEM.Decapsulate")], ["MultiKEM"])
p("C06", "PKE over CSIDH never encrypts under a secret that was not agreed",
  "PKE and multi-recipient PKE encryption produce ciphertext bytes only from a key-agreement result that succeeded for that recipient with a freshly generated ephemeral key whose public part is the one placed in the ciphertext; if key generation or validation of the recipient's key fails, no ciphertext derived from plaintext is produced. Each ciphertext is plaintext xor SHAKE128(agreed secret), and decryption inverts exactly that.",
  ["inputs", "fault_sequences", "histories"], "all public keys including invalid ones, all RNG failures, all earlier states of the hash object",
  "Tests only encrypt to honestly generated keys with a working RNG.",
  ["kem/mkem/csidh.go"], [("result of DeriveSecret and GeneratePrivateKey is checked", "PKE.Enc, MultiPKE.Encrypt")], ["PKE", "MultiPKE"])
p("C07", "RNG failures and short reads never yield predictable keys or secrets",
  "Every operation that consumes caller-supplied randomness uses only bytes the source actually delivered: on a short read it keeps reading, and if the source fails before delivering all needed bytes the operation reports an error (or panics) and does not write a ciphertext or shared secret. An operation that reports success has used fresh random bytes for every random byte it needs.",
  ["fault_sequences", "inputs"], "every failure position and every short-read pattern of the RNG, in SIDH/SIKE key generation, SIKE/mKEM encapsulation, CSIDH key generation and CSIDH field sampling",
  "Tests use crypto/rand or one always-failing reader; partial reads never occur.",
  ["dh/sidh/sidh.go", "dh/sidh/sike.go", "dh/csidh/csidh.go", "kem/mkem/sike.go"], [("io.ReadFull with propagated error", "all RNG call sites")], ["Generate", "Encapsulate", "GeneratePrivateKey"])
p("C08", "Generated SIDH/SIKE private scalars lie in the documented key space",
  "For every field and key variant, Generate fills the scalar so that it is a little-endian integer with its most significant allowed bit (SecretBitLen-1) set, no bit above it set, and every bit below it taken directly from distinct fresh random bits; for SIKE keys S is filled with fresh random bytes independent of the scalar.",
  ["inputs", "configurations"], "all RNG outputs, three fields, variants A, B and SIKE",
  "Tests compare a few generated keys; a masked or reused random bit does not change any tested behaviour.",
  ["dh/sidh/sidh.go"], [("top-byte masking", "PrivateKey.Generate")], ["PrivateKey.Generate"])
p("C09", "SIDH operations use the key's own field and torsion group, or refuse",
  "Public-key generation and secret derivation evaluate the isogeny walk of exactly the private key's field and torsion group, on exactly the scalar and public points given, and write exactly the documented output. Key pairs whose fields differ or whose torsion groups do not fit (different group for key generation, same group for derivation) are refused by a panic before any output byte is written.",
  ["inputs", "configurations"], "all combinations of three fields and key variants for private and public key, all key contents",
  "Tests exercise matching combinations and one or two mismatches.",
  ["dh/sidh/sidh.go", "dh/sidh/internal/p434/core.go", "dh/sidh/internal/p503/core.go", "dh/sidh/internal/p751/core.go"], [("dispatch on field id and torsion bit", "PrivateKey.GeneratePublicKey, PrivateKey.DeriveSecret")], ["GeneratePublicKey", "DeriveSecret"])
p("C10", "SIDH key import and export are exact inverses and import replaces",
  "Importing a key of the right size replaces the whole previous content, a wrong size returns an error and leaves the key unchanged, and exporting writes exactly Size bytes: S followed by the scalar for private keys, and the three field-element pairs in little-endian order for public keys, each coefficient at its own offset. For private keys Export after Import returns the imported bytes; for public keys Import and Export apply inverse layouts around the Montgomery conversions of the key's own field.",
  ["inputs", "histories"], "all byte strings of every length, all previous key contents, three fields and all variants",
  "Round-trip tests import into fresh keys only and use a few sampled keys.",
  ["dh/sidh/sidh.go", "dh/sidh/common/utils.go"], [("BytesToFp2/Fp2ToBytes", "dh/sidh/common/utils.go")], ["Import", "Export"])
p("C11", "CSIDH never computes on an unvalidated public key",
  "CSIDH DeriveSecret applies the private key's group action only to a public key that Validate accepted and returns true only then; otherwise it returns false and leaves the output untouched. Validate accepts only after checking that the coefficient is below p, is neither 2 nor -2, and that a full-order supersingularity test on the same coefficient concluded; the caller's keys keep their value.",
  ["inputs"], "all 512-bit public keys, all private keys, all RNG outputs",
  "Tests use a list of known valid and invalid keys; skipping one check leaves most of them passing.",
  ["dh/csidh/csidh.go"], [("validation before group action", "DeriveSecret"), ("range and singularity checks", "Validate")], ["DeriveSecret", "Validate"])
p("C12", "CSIDH key import and export are exact inverses with strict sizes",
  "CSIDH public-key Import accepts exactly 64 bytes and private-key Import exactly 37 bytes, replaces the whole previous value, and otherwise returns false and changes nothing; Export writes the canonical little-endian bytes of the value (or returns false and writes nothing when the buffer does not fit). Export after Import returns the imported bytes for every input.",
  ["inputs", "histories"], "all byte strings of every length, all previous key contents",
  "Tests import a few keys into fresh objects and never an over-long private key.",
  ["dh/csidh/csidh.go"], [("length guards and limb packing", "Import, Export")], ["PublicKey.Import", "PrivateKey.Import"])
p("C13", "CSIDH sampling is by rejection: exponents in [-5,5], field elements below p",
  "A successful CSIDH GeneratePrivateKey leaves every one of the 74 exponents equal to an independent random byte accepted only when it lies in [-5,5], each packed into its own half-byte, independent of the previous key. Random field elements used in validation and the group action are uniform 511-bit values re-drawn in full until strictly below p.",
  ["inputs", "fault_sequences"], "all RNG outputs and all previous key contents",
  "Statistical tails, rare values (-5, 5, values just above p) and stale key material are not reached by sampling a few keys.",
  ["dh/csidh/csidh.go"], [("rejection loops", "GeneratePrivateKey, randFp")], ["GeneratePrivateKey"])
p("C14", "Hash objects honour the hash.Hash and XOF contracts",
  "For SHA-3, SHAKE/cSHAKE and SM3 objects in any state: Write consumes and reports its whole input, Sum appends Size bytes to its argument and leaves the object's state unchanged, Reset restores the initial state whatever happened before, and Size and BlockSize return the algorithm's constants. After a SHA-3/SHAKE object has been read from, Write reports ErrWriteAfterRead and changes nothing.",
  ["inputs", "histories"], "all object states, all argument slices (nil, with or without spare capacity, any length)",
  "Tests call Sum once per object and never use the written count or write after Sum.",
  ["hash/sha3/sha3.go", "hash/sha3/shake.go", "hash/sm3/sm3.go"], [("state copy in Sum", "state.Sum, digest.Sum"), ("squeeze flag", "state.Write")], ["hash.Hash", "ShakeHash"])
p("C15", "SHA-3 and SHAKE compute the sponge function for any chunking",
  "However a message is split over Write calls and the output over Read calls, a SHA-3/SHAKE/cSHAKE object behaves as the Keccak sponge of its rate: it absorbs the message padded with its domain suffix and final bit in rate-sized blocks and returns the squeezed bytes in order. Input slices are never modified.",
  ["inputs", "histories"], "all positions in the block buffer, all message contents, all split points, five rates",
  "KATs fix the messages and splits; the boundary cases per rate (full buffer, one byte short, multi-block tails) are sampled.",
  ["hash/sha3/sha3.go", "hash/sha3/xor.go", "hash/sha3/xor_unaligned.go", "hash/sha3/xor_generic.go"], [("block buffering", "state.Write, state.Read"), ("padding", "finalize")], ["state.Write", "state.Read"])
p("C16", "SHAKE and cSHAKE clones are independent and Reset restores customization",
  "Clone returns an object in the same state such that no later operation on either affects the other. Reset of a cSHAKE object returns it to the state just after construction, that is with its function-name and customization prefix absorbed, whatever happened before, also on clones.",
  ["histories"], "all interleavings of operations on an object and its clones",
  "Tests clone once and compare one digest.",
  ["hash/sha3/shake.go"], [("state copied by value", "Clone"), ("initBlock", "cshakeState")], ["ShakeHash.Clone", "ShakeHash.Reset"])
p("C17", "cSHAKE prefix encoding follows SP 800-185 for every N and S",
  "cSHAKE absorbs bytepad(encode_string(N) || encode_string(S), rate) before any message, with left_encode of bit lengths in minimal big-endian form, with zero padding up to and never beyond the next multiple of the rate, and uses the cSHAKE suffix exactly when N or S is non-empty. The caller's N and S are not retained or modified.",
  ["inputs"], "all lengths and contents of N and S, both rates",
  "Two NIST samples fix N empty and one S; lengths at encoding and block boundaries are never tried.",
  ["hash/sha3/shake.go"], [("bytepad, leftEncode", "hash/sha3/shake.go")], ["NewCShake128", "NewCShake256"])
p("C18", "SM3 computes the padded Merkle-Damgard hash for any chunking",
  "However a message is split over Write calls, an SM3 object compresses it in 64-byte blocks and Sum applies the padding bit, zeros and 64-bit big-endian bit length exactly once, in one or two final blocks as needed. Neither the input nor the compression of earlier blocks is affected by chunking.",
  ["inputs", "histories"], "all buffer positions, message contents, split points",
  "Tests use a few splits and message lengths.",
  ["hash/sm3/sm3.go", "hash/sm3/compress.go"], [("block buffering and padding", "digest.Write, digest.Sum")], ["digest.Write", "digest.Sum"])
p("C19", "CTR_DRBG follows the SP 800-90A state machine and never repeats keystream",
  "Init, Reseed and Read perform exactly the CTR_DRBG (AES-256, no derivation function) transitions: key and counter block start from zero, update with the seed material xored with personalization or additional input, every output block - also a final partial one - encrypts a fresh increment of the counter under the current key, and every request ends with an update. Read before Init, and Init with less entropy than the security strength, fail.",
  ["inputs", "histories"], "all entropies, additional inputs, request lengths and reachable states",
  "Two CAVP vectors with one 64-byte request; partial blocks, re-initialisation and counter carry are not exercised.",
  ["drbg/ctr_drbg.go"], [("update/inc/encrypt sequence", "CtrDrbg")], ["CtrDrbg.Init", "CtrDrbg.Reseed", "CtrDrbg.Read"])
p("C20", "AES blocks: full-block guards, key-size handling and round count",
  "Both AES implementations refuse (panic before writing) sources or destinations shorter than a block and inexactly overlapping buffers, write exactly one block, accept exactly 16-, 24- and 32-byte keys with 10, 12 and 14 rounds and reject any other key with an error leaving the object unchanged. Encryption uses only the encryption schedule and decryption only the decryption schedule of the most recently set key.",
  ["inputs", "histories"], "all buffer lengths and overlaps, all key lengths, all earlier keys",
  "Tests use standard vectors through one implementation and key size at a time.",
  ["drbg/internal/aes/cipher.go", "drbg/internal/aes/cipher_asm.go", "drbg/internal/aes/generic.go", "drbg/internal/aes/tools.go"], [("guards", "Encrypt, Decrypt"), ("rounds from key length", "SetKey")], ["IAES"])
p("C21", "No operation mutates package-level state or its input arguments",
  "After package initialisation no exported operation, Go or assembly, writes any package-level variable, so operations on distinct objects are independent of each other and of scheduling. Operations modify only their receiver's or documented output argument's memory: plaintexts, ciphertext inputs, seeds, messages, keys used as inputs and domain parameters keep their value.",
  ["schedules", "histories"], "all interleavings of operations on distinct objects; every exported operation",
  "The race detector and tests see only the interleavings and the arguments they execute.",
  ["dh", "kem", "hash", "drbg", "utils"], [("locals instead of package scratch", "whole repository")], [])
p("C22", "SIDH and SIKE run in constant time with respect to secrets",
  "In SIDH key generation and derivation and SIKE encapsulation and decapsulation, no branch, loop bound, memory address, table index or variable-latency operation depends on private scalars, the secret S, decrypted or ephemeral messages, derived secrets or the outcome of the ciphertext check, in Go and in assembly. The only exceptions are public lengths, key types and RNG or size errors.",
  ["inputs"], "all secrets; every path of the call graph from the exported operations",
  "Timing is invisible to functional tests.",
  ["dh/sidh", "kem/mkem/sike.go", "hash/sha3"], [("constant-time select, compare and swap", "Cpick, cswap, subtle.ConstantTimeCompare")], ["KEM.Decapsulate", "PrivateKey.DeriveSecret"])
p("C23", "Domain parameters and constant tables satisfy their defining equations",
  "The constants of every parameter set are mutually consistent: each prime has its defining form, every derived constant (2p, p+1, R^2, 1, 1/2, 6, -1/p, (p-1)/2, bounds, Montgomery forms) equals its defining value, torsion base points lie on the starting curve and have full order as x-only triples, sizes and bit lengths agree with the prime and with the maximum buffer sizes, and isogeny strategies are valid full traversals. AES, Keccak and SM3 tables equal their mathematical definitions, in Go and assembly.",
  ["inputs", "configurations"], "every element of every table and every parameter set",
  "Tests touch the entries their samples index and check few constants directly.",
  ["dh/sidh/internal/p434/params.go", "dh/sidh/internal/p503/params.go", "dh/sidh/internal/p751/params.go", "dh/csidh/consts.go", "drbg/internal/aes/const.go", "hash/sha3/keccakf.go", "dh/sidh/common/types.go"], [("constant tables", "params.go, consts.go, const.go")], [])
p("C24", "Optional CPU instructions execute only after their feature was detected",
  "No BMI2 (MULX), ADX (ADCX/ADOX) or AES-NI instruction is reachable at run time unless the corresponding CPUID feature was detected, and each exported feature flag reports exactly its architectural CPUID leaf, register and bit.",
  ["configurations"], "all CPUs, that is all combinations of feature bits",
  "Tests run on one CPU that has all features.",
  ["utils/cpuid_amd64.go", "drbg/ctr_drbg.go", "dh/csidh/fp511_amd64.go", "dh/sidh/internal/p434/arith_amd64.s", "dh/sidh/internal/p503/arith_amd64.s", "dh/sidh/internal/p751/arith_amd64.s", "drbg/internal/aes/cipher_asm.go"], [("feature flags tested before the instruction", "assembly and Go dispatch")], [])
p("C25", "Every supported build configuration is complete and its siblings agree",
  "For every supported architecture and with or without assembly, every package type-checks with exactly one definition of each arithmetic primitive, and each assembly routine's frame and argument layout matches its Go declaration. The field-generic code of the three SIDH primes is the same algorithm up to the prime's own parameters.",
  ["configurations"], "amd64, arm64 and portable architectures, with and without the noasm tag",
  "Tests build amd64 (and noasm for three packages) only.",
  ["dh", "drbg", "hash", "utils", "kem"], [("build constraints", "all platform-specific files"), ("generated siblings", "dh/sidh/internal/templates")], [])
p("C26", "Curve formulas compute the right rational maps, also with overlapping operands",
  "The x-only point and isogeny formulas of SIDH (doubling, tripling, differential addition, 3- and 4-isogeny construction and evaluation, j-invariant, curve-coefficient recovery, three-point ladder step, batch inversion) and of CSIDH (addition, doubling, ladder step, isogeny, curve evaluation) equal their textbook rational functions over any field, for every operand including documented overlaps.",
  ["inputs"], "all operand values, as polynomial identities",
  "Tests check formulas on sampled points.",
  ["dh/sidh/internal/p434/curve.go", "dh/sidh/internal/p503/curve.go", "dh/sidh/internal/p751/curve.go", "dh/csidh/curve.go"], [("straight-line field programs", "curve.go")], [])
p("C27", "Portable and assembly field arithmetic is exact for every operand",
  "Every field addition, subtraction, multiplication, Montgomery reduction and final correction returns the congruent value in its documented range for all operands in range, including every carry and borrow pattern, and the assembly and portable versions agree.",
  ["inputs"], "all operands in the documented ranges",
  "Random operands hit rare carry chains with probability about 2^-64.",
  ["dh/sidh/internal/p503/arith_generic.go", "dh/csidh/fp511.go", "dh/csidh/fp511_generic.go"], [("carry chains", "arith files")], [])
p("C28", "Both parties derive the same secret; the CSIDH group action commutes",
  "For all key pairs the two parties of SIDH and CSIDH derive the same shared secret from each other's public key, exchanged in memory or as bytes, and a SIKE or mKEM receiver recovers exactly the secret that was encapsulated to its public key.",
  ["inputs"], "all pairs of private keys, all messages",
  "Only sampled key pairs are tried, and a mistake common to both parties or on a rare carry cancels or stays hidden.",
  ["dh/sidh/internal/p434/core.go", "dh/sidh/sidh.go", "dh/sidh/sike.go", "kem/mkem/sike.go", "dh/csidh/csidh.go"], [("isogeny walks", "core.go, csidh.go"), ("KEM round trip", "sike.go")], ["DeriveSecret", "Encapsulate", "Decapsulate"])
p("C29", "CSIDH group action applies every prime's exponent in the right direction exactly",
  "The CSIDH group action takes, for every one of the 74 primes, exactly |e_i| isogeny steps of that degree, in the direction of the exponent's sign, before returning the normalised coefficient, for every private key and every sequence of random points.",
  ["inputs", "histories"], "all private keys and RNG outputs",
  "Key-agreement tests cancel consistent errors on both sides, and rare retry paths are not reached.",
  ["dh/csidh/csidh.go"], [("exponent bookkeeping", "groupAction")], ["GeneratePublicKey", "DeriveSecret"])
p("C30", "SM3 compression, Keccak-f and AES compute their specification for every input",
  "For every chaining value and message block the SM3 compression function, for every state the Keccak-f[1600] permutation, and for every key of 128, 192 and 256 bits and every block AES encryption and decryption return exactly what their standards specify, in the portable and in the assembly versions.",
  ["inputs", "configurations"], "all states, blocks and keys; portable, amd64 and arm64 assembly",
  "Test vectors cover a vanishing part of the inputs and only the CPU the tests run on; AES-192 and decryption are not used by the DRBG.",
  ["hash/sm3/compress.go", "hash/sha3/keccakf.go", "hash/sha3/keccakf_amd64.s", "drbg/internal/aes/generic.go", "drbg/internal/aes/asm_amd64.s", "drbg/internal/aes/asm_arm64.s"], [("round functions", "compress.go, keccakf, aes")], ["Write", "Encrypt", "Decrypt"])
p("C31", "SIDH keys and secrets come from the complete, well-formed isogeny walk",
  "For every private key, SIDH key generation walks from the starting curve through all isogenies of degree 4 (or 3) whose composition has the kernel generated by Q+[k]P, each kernel a point of exactly that order on the curve it is used on, and returns the x-coordinates of the images of the other party's three points in order; for every public key, derivation does the same from the curve of that public key and returns the j-invariant of the last curve.",
  ["inputs"], "all private and public keys, all three fields, both sides",
  "Tests compare a handful of key pairs; a walk that is wrong for some keys or only on one side is not met.",
  ["dh/sidh/internal/p434/core.go", "dh/sidh/internal/p503/core.go", "dh/sidh/internal/p751/core.go"], [("tree traversal", "core.go"), ("isogenies", "curve.go")], ["GeneratePublicKey", "DeriveSecret"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
print(len(P))
