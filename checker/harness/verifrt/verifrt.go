// Package verifrt declares the intrinsics of the analysis harnesses. The
// functions have no implementation: they are interpreted by the checker.
package verifrt

import "io"

// Bytes is a fresh n-byte slice with unknown content.
func Bytes(name string, n int) []byte { panic(name) }

// BytesRange is a fresh slice with unknown content and unknown length in [lo,hi].
func BytesRange(name string, lo, hi int) []byte { panic(name) }

// BytesLen is a fresh slice with unknown content and the given, possibly
// unknown, length.
func BytesLen(name string, n int) []byte { panic(name) }

// LastBlock is the block last given to the SM3 compression.
func LastBlock(b *[64]byte) { panic(b) }

// Cut drops, from here on, every path that takes more than n iterations of a
// loop that could have ended earlier. Cut(0) ends this.
func Cut(n int) { panic(n) }

// BytesCap is like Bytes with an unknown capacity tail of extra bytes.
func BytesCap(name string, n, extra int) []byte { panic(name) }

// Fill replaces the content of b by unknown bytes.
func Fill(name string, b []byte) { panic(name) }
func Bool(name string) bool      { panic(name) }
func U8(name string) uint8       { panic(name) }
func U64(name string) uint64     { panic(name) }
func Int(name string, lo, hi int) int {
	panic(name)
}

// Reader is a random source: byte i of the stream is an unknown named by
// (name, i); every request may fail or be short.
func Reader(name string) *Rng { panic(name) }

// GoodReader never fails.
func GoodReader(name string) *Rng { panic(name) }

type Rng struct {
	pos  uint64
	fail bool
	id   [1]uint8
}

func (r *Rng) Read(p []byte) (int, error) { panic(r) }

// Failed reports that some request to r failed. Drawn is the number of bytes delivered.
func (r *Rng) Failed() bool { return r.fail }
func (r *Rng) Drawn() int   { return int(r.pos) }

// Byte is stream byte i of the source called name.
func Byte(name string, i int) byte { panic(name) }

// Havoc gives every integer array and buffer reachable from p unknown
// content; hash objects are driven to an unknown reachable state.
func Havoc(name string, p interface{}) { panic(name) }

func Assume(b bool)                                  { panic(b) }
func Assert(name string, b bool)                     { panic(name) }
func EqBytes(a, b []byte) bool                       { panic(a) }
func Same(a, b interface{}) bool                     { panic(a) }
func Panics(f func()) bool                           { panic(f) }
func Cover(name string)                              { panic(name) }
func Alias(a, b []byte) bool                         { panic(a) }
func Snapshot(p interface{}) interface{}             { panic(p) }
func Unchanged(snap interface{}, p interface{}) bool { panic(p) }
func Select(c bool, a, b byte) byte                  { panic(c) }
func And(a, b bool) bool                             { panic(a) }
func Or(a, b bool) bool                              { panic(a) }
func Implies(a, b bool) bool                         { panic(a) }

var _ io.Reader = (*Rng)(nil)

// Name abbreviates a word wherever it is computed again.
func Name(x uint64) uint64 { panic(x) }

// Mode switches a level of summaries off for the rest of the harness.
func Mode(name string) { panic(name) }

// Choose is an unknown number in [lo,hi], treated case by case.
func Choose(name string, lo, hi int) int { panic(name) }

// FreshBits reports that bits 0..n-1 of b (little-endian) are pairwise
// distinct bits delivered by random sources.
func FreshBits(b []byte, n int) bool { panic(b) }

// UsesRng reports that each of the bytes from..from+n-1 of a random source has
// its part in the value of b.
func UsesRng(b []byte, rng string, from, n int) bool { panic(b) }

// Fun is an n-byte result of the uninterpreted function called name.
func Fun(name string, n int, a, b []byte) []byte { panic(name) }

// Extrapolate advances h2, which took two equal steps more than h0 and one
// more than h1, as if it had taken k. It reports false when it cannot.
func Extrapolate(h0, h1, h2 interface{}, k uint64) bool { panic(k) }

// F is a value of the field chosen by the last field mode: a quotient of
// polynomials in the field elements of unknown value.
type F uint64

func FInt(k int) F        { panic(k) }
func FR() F               { panic(0) } // the Montgomery constant R
func FOf(p interface{}) F { panic(p) } // the element p points to, out of Montgomery form
// FEq: equal as rational functions. FZero: zero for every value of the unknowns.
func FZero(a F) bool        { panic(a) }
func FEq(a, b F) bool       { panic(a) }
func (a F) Add(b F) F       { panic(a) }
func (a F) Sub(b F) F       { panic(a) }
func (a F) Mul(b F) F       { panic(a) }
func (a F) Inv() F          { panic(a) }
func (a F) Sqr() F          { panic(a) }
func (a F) Times(k int) F   { panic(a) }
func (a F) Pow(k int) F     { panic(a) }
func (a F) PowP(k, d int) F { panic(a) } // a^((p+k)/d)

// The group-order domain of CSIDH: what the k-th random element is, in the order of calls.
func Draw(rng string, belowP bool, side, missLo, missHi int, foreign bool) { panic(rng) }
func DrawsUsed() int                                                       { panic(0) }
func CurveBase(a interface{})                                              { panic(a) }

// The isogeny walk of a SIDH key (mode "walk"), see walk.go.
func Walk(curve interface{})                 { panic(curve) }
func WalkThrough(p, q, r interface{})        { panic(p) }
func WalkOwn(side int, key []byte)           { panic(side) }
func WalkPoint(side, idx int, x interface{}) { panic(side) }
func WalkImage(x interface{}, side, idx int) { panic(side) }
func WalkJ(k int) uint64                     { panic(k) }

// Scalar multiplication with a scalar of unknown bits, see ladder.go.
func Ladder(curve interface{})                             { panic(curve) }
func LadderPoint(p interface{}, q, b int)                  { panic(p) }
func LadderIs(r interface{}, scalar []byte, n uint, b int) { panic(r) }

func CurveNet(a interface{}, i int) int   { panic(a) }
func CurveSteps(a interface{}, i int) int { panic(a) }

// Multi-word integers (mode "num"). NumIn: w is an unknown number below bound
// (zero: no bound). NumCheck: out is expr (a sum of products of numbers named by
// NumIn) modulo 2^(64 len(out)); with a modulus, out*2^(64 mont) is congruent to
// expr and out is below bound.
func NumIn(name string, w, bound []uint64)                                           { panic(name) }
func NumCheck(name string, out []uint64, expr string, mod, bound []uint64, mont int) { panic(name) }
