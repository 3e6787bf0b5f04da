package csidh

import "github.com/henrydcase/nobs/verifrt"

// vExps is a private key with these exponents.
func vExps(f func(i int) int) *PrivateKey {
	prv := new(PrivateKey)
	for i := 0; i < 74; i++ {
		b := byte(f(i)) & 15
		if i&1 == 0 { // even exponents in the high nibbles
			b <<= 4
		}
		prv.e[i>>1] |= int8(b)
	}
	return prv
}

// vAction checks that a is the coefficient that this action leads to.
func vAction(a *fp, f func(i int) int) {
	for i := 0; i < 74; i++ {
		verifrt.Assert("exactly |e| steps in the direction of e", verifrt.CurveSteps(a, i) == f(i))
	}
	verifrt.Cover("action applied")
}
