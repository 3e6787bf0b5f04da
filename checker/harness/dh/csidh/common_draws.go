package csidh

import "github.com/henrydcase/nobs/verifrt"

// vDraw is what one random element meets: whether its 511 bits are below p, on
// which side (curve or twist) the point lies, which primes [lo, hi) are missing
// from its order and whether its order has a factor that does not divide p+1.
type vDraw struct {
	below   bool
	side    int
	lo, hi  int
	foreign bool
}

func vDeclare(ds []vDraw) {
	for _, d := range ds {
		verifrt.Draw("rng", d.below, d.side, d.lo, d.hi, d.foreign)
	}
}

func vMixed(i int) int { return i%7 - 3 }
