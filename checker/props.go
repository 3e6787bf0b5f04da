package main

// propAnalyses lists the non-harness analyses that decide (parts of) a property.
var propAnalyses = map[string][]string{}

// analyses run over one build configuration.
var analyses = map[string]func(cfg Config) []*Result{}

func analysisConfigs(a, tier string) []Config {
	if a == "buildmatrix" {
		var r []Config
		for _, arch := range []string{"amd64", "arm64", "riscv64", "386", "s390x"} {
			r = append(r, Config{Arch: arch}, Config{Arch: arch, Tags: "noasm"})
		}
		return r
	}
	return configs("", tier)
}

// minObligations guards against vacuous passes (about half of the counts on
// the reviewed tree).
var minObligations = map[string]int{
	"C01": 54,
	"C02": 72,
	"C03": 846,
	"C04": 238,
	"C05": 156,
	"C06": 130,
	"C07": 3000,
	"C08": 110,
	"C09": 1031,
	"C10": 5533,
	"C11": 15000,
	"C12": 45,
	"C13": 600,
	"C14": 22654,
	"C15": 328110,
	"C16": 9200,
	"C17": 20056,
	"C18": 9000,
	"C19": 545,
	"C20": 3094,
	"C21": 120,
	"C22": 3000,
	"C23": 400,
	"C24": 100,
	"C25": 500,
	"C26": 710,
	"C27": 250,
	"C29": 60000,
	"C28": 60000,
	"C30": 59,
	"C31": 5000,
}

// lemmas: properties a property rests on; their checks are part of its own,
// all of them or those of one part of the repository.
type lemma struct{ prop, part string }

var lemmas = map[string][]lemma{
	"C28": {{"C27", ""}, {"C26", ""}, {"C29", ""}, {"C31", ""}},
	"C29": {{"C26", "dh/csidh"}},
	"C31": {{"C27", "dh/sidh"}, {"C26", "dh/sidh"}},
}

var explain = map[string]string{
	"C01": "Decapsulate is interpreted abstractly with symbolic keys and ciphertext; each obligation compares the returned bytes with an independently written SIKE transcript (accept and reject selected by the full ciphertext comparison)",
	"C02": "Encapsulate is interpreted abstractly with a symbolic random source that may fail; ciphertext, secret and error are compared with the SIKE transcript",
	"C03": "operations on a KEM object whose reachable content was replaced by unknown values are compared with the same operation on a fresh object",
	"C04": "every length and key-kind precondition: which inputs must be refused, that refusal leaves outputs untouched, and that no input panics",
	"C05": "mKEM encapsulation and decapsulation compared with the SIKE-style transcript for each recipient, including aliasing and failure",
	"C06": "PKE/MultiPKE plaintext and ciphertext relations with CSIDH uninterpreted",
	"C07": "each operation that draws randomness, with a source that fails after any number of bytes and may deliver short reads: error exactly on failure, no output then, and otherwise outputs made of delivered bytes only",
	"C08": "every bit of a generated SIDH scalar compared with the documented key space",
	"C09": "DeriveSecret dispatch on key variant, field and length",
	"C10": "Export/Import/Size round trips of SIDH keys",
	"C11": "Validate and DeriveSecret in the group-order domain, for any coefficient: each rejection, each inconclusive draw, each verdict; output and keys on rejection",
	"C13": "which random byte becomes which exponent, for every pattern of rejected bytes analysed; field elements taken from the random source",
	"C12": "Export/Import of CSIDH keys",
	"C14": "hash.Hash contract of SHA-3, SHAKE, cSHAKE and SM3 objects",
	"C15": "sponge and Keccak permutation compared with a reference",
	"C16": "Clone and state independence of sponge objects",
	"C17": "cSHAKE encodings and domain separation compared with SP 800-185",
	"C18": "SM3 padding, block function and streaming compared with the reference",
	"C19": "CTR_DRBG compared with SP 800-90A",
	"C20": "AES wrapper and portable cipher compared with the reference",
	"C21": "for each exported operation: its write summary contains no package-level variable, no argument other than the documented outputs, and it keeps no reference to an input",
	"C23": "each constant of the parameter sets, evaluated from the initialisers, equals the value its defining equation gives; base points: curve membership, exact order, independence, difference; strategies: pre-order of a tree with the right number of leaves",
	"C22": "for every branch, index, slice bound, length, division, signed shift count and variable-time library call that the analysis meets: the value it depends on is not derived from a secret (Go code and assembly)",
	"C24": "feature requirements propagated from each instruction to the exported entry points",
	"C25": "each package, declaration, argument reference and symbol reference in each configuration is one obligation",
	"C28": "both parties' operations run one after the other in the isogeny-walk domains (curves identified by the kernel or the exponent vector that leads to them); the derived secrets must be the same term; formulas, field arithmetic, walks and constants are decided again as part of this check",
	"C31": "SIDH key generation and derivation in the isogeny-walk domain: curves known by (A+2C)/4C, points by role and order; every multiplication, isogeny and image must be meaningful and the walk complete",
	"C30": "bodies of SM3 compression, Keccak-f[1600] and AES in Go and assembly, as words in algebraic normal form; every output word must have the normal form of the standard's algorithm",
	"C29": "each scalar multiplication, isogeny and residue test of a group action in the group-order domain: the kernel has order exactly the degree, lies on the right curve, and the result lies exactly e_i steps of degree l_i away",
	"C27": "field arithmetic bodies, Go and assembly, as integer polynomials in operand words; carries and borrows are exact quotients; the result's polynomial must be congruent to the specified one and its bounds inside the documented range",
	"C26": "curve formulas as canonical rational functions compared with textbook formulas",
}

func assumptions(prop string) []string {
	return []string{
		"golang.org/x/tools/go/ssa represents the source faithfully",
		"the summarised primitives listed in coverage.summarised_calls are deterministic functions of the operands they are given",
	}
}

func init() {
	analyses["features"] = anaFeatures
	propAnalyses["C24"] = []string{"features"}
	analyses["asmct"] = anaAsmCT
	propAnalyses["C22"] = []string{"asmct"}
	analyses["effects"] = anaEffects
	propAnalyses["C21"] = []string{"effects"}
	analyses["tables"] = anaTables
	analyses["dhtables"] = anaDHTables
	propAnalyses["C28"] = []string{"dhtables"}
	propAnalyses["C31"] = []string{"dhtables"}
	propAnalyses["C23"] = []string{"tables"}
	analyses["buildmatrix"] = anaMatrix
	propAnalyses["C25"] = []string{"buildmatrix"}
}
