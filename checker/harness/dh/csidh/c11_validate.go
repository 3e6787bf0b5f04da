package csidh

import (
	"math/bits"

	"github.com/henrydcase/nobs/verifrt"
)

// vVerdict is the answer of the supersingularity test on these draws, and the
// number of draws it takes.
func vVerdict(ds []vDraw) (bool, int) {
	for n, d := range ds {
		if !d.below {
			continue
		}
		if d.foreign {
			return false, n + 1
		}
		if vConclusive(d.lo, d.hi) {
			return true, n + 1
		}
	}
	panic("no conclusive draw")
}

// vConclusive: the product of the primes present exceeds 4 sqrt(p).
func vConclusive(lo, hi int) bool {
	prod := fp{1}
	for i, q := range primes {
		if i >= lo && i < hi {
			continue
		}
		var carry, c uint64
		for j := range prod {
			h, l := bits.Mul64(prod[j], q)
			prod[j], c = bits.Add64(l, carry, 0)
			carry = h + c
		}
	}
	for i := 7; i >= 0; i-- {
		if prod[i] != fourSqrtP[i] {
			return prod[i] > fourSqrtP[i]
		}
	}
	return false
}

func vValidate(ds []vDraw) {
	verifrt.Mode("csidh.field")
	verifrt.Mode("csidh.order")
	vDeclare(ds)
	pub := new(PublicKey)
	verifrt.Havoc("pub", pub)
	verifrt.CurveBase(&pub.a)
	snap := verifrt.Snapshot(pub.a)
	accepted := Validate(pub, verifrt.GoodReader("rng"))
	verifrt.Assert("the key keeps its value", verifrt.Unchanged(snap, pub.a))
	if pub.a == two || pub.a == twoNeg || !isLess(&pub.a, &p) {
		verifrt.Assert("out of range or singular coefficients are rejected", !accepted)
		verifrt.Cover("rejected")
		return
	}
	want, n := vVerdict(ds)
	verifrt.Assert("accepted exactly when the curve shows as supersingular", accepted == want)
	verifrt.Assert("tested until a draw is conclusive", verifrt.DrawsUsed() == n)
	verifrt.Cover("tested")
}

func vDerive(ds []vDraw, f func(i int) int) {
	verifrt.Mode("csidh.field")
	verifrt.Mode("csidh.order")
	vDeclare(ds)
	pub, prv := new(PublicKey), vExps(f)
	verifrt.Havoc("pub", pub)
	verifrt.CurveBase(&pub.a)
	var out [64]byte
	verifrt.Havoc("out", &out)
	snapPub, snapPrv, snapOut := verifrt.Snapshot(pub.a), verifrt.Snapshot(prv.e), verifrt.Snapshot(out)
	ok := DeriveSecret(&out, pub, prv, verifrt.GoodReader("rng"))
	verifrt.Assert("the public key keeps its value", verifrt.Unchanged(snapPub, pub.a))
	verifrt.Assert("the private key keeps its value", verifrt.Unchanged(snapPrv, prv.e))
	want, n := vVerdict(ds)
	if pub.a == two || pub.a == twoNeg || !isLess(&pub.a, &p) || !want {
		verifrt.Assert("a rejected key gives no secret", !ok)
		verifrt.Assert("a rejected key leaves the output untouched", verifrt.Unchanged(snapOut, out))
		if !want {
			verifrt.Assert("the private key meets no rejected curve", verifrt.DrawsUsed() <= n)
		}
		verifrt.Cover("rejected")
		return
	}
	verifrt.Assert("a validated key gives a secret", ok)
	var a fp
	for i := range a {
		for j := 7; j >= 0; j-- {
			a[i] = a[i]<<8 | uint64(out[8*i+j])
		}
	}
	vAction(&a, f)
}

func verifC11ValidateFirst()    { vValidate([]vDraw{{below: true}}) }
func verifC11ValidateForeign()  { vValidate([]vDraw{{below: true, foreign: true}}) }
func verifC11ValidateTwist()    { vValidate([]vDraw{{below: true, side: 1}}) }
func verifC11ValidateResample() { vValidate([]vDraw{{}, {}, {below: true}}) }

// orders too small to conclude are followed by another draw
func verifC11ValidateSmall() {
	vValidate([]vDraw{{below: true, lo: 0, hi: 74}, {below: true, lo: 5, hi: 70}, {}, {below: true, lo: 20, hi: 73}, {below: true, side: 1, lo: 3, hi: 4}})
}
func verifC11ValidateSmallForeign() {
	vValidate([]vDraw{{below: true, lo: 5, hi: 70}, {below: true, lo: 30, hi: 74, foreign: true}})
}
func verifC11ValidateSmallTwist() {
	vValidate([]vDraw{{below: true, side: 1, lo: 0, hi: 70}, {below: true, lo: 0, hi: 1}})
}

// orders just above and just below the bound
func verifC11ValidateBound() {
	lo := 74
	for vConclusive(lo-1, 74) {
		lo--
	}
	// primes [0, lo) are enough, [0, lo-1) are not
	vValidate([]vDraw{{below: true, lo: lo - 1, hi: 74}, {below: true, lo: lo, hi: 74}, {below: true, foreign: true}})
}
func verifC11ValidateBoundHigh() {
	hi := 1
	for vConclusive(0, hi) {
		hi++
	}
	vValidate([]vDraw{{below: true, lo: 0, hi: hi}, {below: true, lo: 0, hi: hi - 1}, {below: true, foreign: true}})
}
func verifC11ValidateBoundMiddle() {
	hi := 21
	for vConclusive(20, hi) {
		hi++
	}
	vValidate([]vDraw{{below: true, lo: 20, hi: hi}, {below: true, side: 1, lo: 20, hi: hi - 1}, {below: true, foreign: true}})
}

func verifC11DeriveForeign() {
	vDerive([]vDraw{{below: true, foreign: true}}, func(i int) int { return i%3 - 1 })
}
func verifC11DeriveLateForeign() {
	vDerive([]vDraw{{}, {below: true, lo: 2, hi: 73}, {below: true, foreign: true, side: 1}}, func(i int) int { return i%3 - 1 })
}
func verifC11DeriveFirst() {
	vDerive([]vDraw{{below: true}}, func(i int) int { return i%11 - 5 })
}
func verifC11DeriveSmall() {
	vDerive([]vDraw{{below: true, lo: 0, hi: 72}, {}, {below: true, lo: 40, hi: 41}, {}, {below: true, side: 1, lo: 3, hi: 9}}, func(i int) int { return i%5 - 2 })
}
func verifC11DeriveIdentity() {
	vDerive([]vDraw{{below: true, side: 1}, {below: true, side: 1}}, func(i int) int { return 0 })
}

// long runs of random elements that do not decide
func verifC11ValidateLongResample() {
	ds := make([]vDraw, 1500)
	vValidate(append(ds, vDraw{below: true, foreign: true}))
}
func verifC11ValidateLongSmall() {
	ds := make([]vDraw, 300)
	for i := range ds {
		ds[i] = vDraw{below: true, side: i & 1, hi: 74}
	}
	vValidate(append(ds, vDraw{below: true, foreign: true}))
}
func verifC11ValidateLongSmallAccept() {
	ds := make([]vDraw, 300)
	for i := range ds {
		ds[i] = vDraw{below: true, side: i & 1, hi: 74}
	}
	vValidate(append(ds, vDraw{below: true}))
}

// a key object that held a validated key does not lend its verdict to the next
func vReuse(first func(pub *PublicKey, prv *PrivateKey, rng *verifrt.Rng), next byte) {
	verifrt.Mode("csidh.field")
	verifrt.Mode("csidh.order")
	vDeclare([]vDraw{{below: true}})
	pub, prv := new(PublicKey), vExps(func(i int) int { return i%3 - 1 })
	verifrt.CurveBase(&pub.a)
	rng := verifrt.GoodReader("rng")
	first(pub, prv, rng)
	var key, out [64]byte
	for i := range key {
		key[i] = next
	}
	if !pub.Import(key[:]) {
		return
	}
	verifrt.Havoc("out", &out)
	snap, n := verifrt.Snapshot(out), verifrt.DrawsUsed()
	verifrt.Assert("an invalid key in a used object is refused", !DeriveSecret(&out, pub, prv, rng))
	verifrt.Assert("an invalid key in a used object is not validated", !Validate(pub, rng))
	verifrt.Assert("a refused key leaves the output untouched", verifrt.Unchanged(snap, out))
	verifrt.Assert("a refused key meets no random element", verifrt.DrawsUsed() == n)
	verifrt.Cover("reused")
}

func verifC11ReuseDerive() {
	vReuse(func(pub *PublicKey, prv *PrivateKey, rng *verifrt.Rng) {
		var out [64]byte
		DeriveSecret(&out, pub, prv, rng)
	}, 255)
}
func verifC11ReuseValidate() {
	vReuse(func(pub *PublicKey, prv *PrivateKey, rng *verifrt.Rng) { Validate(pub, rng) }, 255)
}
func verifC11ReuseGenerate() {
	vReuse(func(pub *PublicKey, prv *PrivateKey, rng *verifrt.Rng) { GeneratePublicKey(pub, prv, rng) }, 255)
}
