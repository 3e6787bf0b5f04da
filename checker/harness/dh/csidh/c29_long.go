package csidh

import "github.com/henrydcase/nobs/verifrt"

func vRepeat(n int, below bool, side, lo, hi int) {
	for ; n > 0; n-- {
		verifrt.Draw("rng", below, side, lo, hi, false)
	}
}

// long runs of random elements that bring nothing
func verifC29LongResample() {
	vRepeat(1500, false, 0, 0, 0)
	vRepeat(1, true, 1, 0, 0)
	vRepeat(1500, false, 1, 0, 0)
	vGen(vMixed)
}
func verifC29LongOneSided() {
	vRepeat(3, true, 0, 0, 0)
	vRepeat(2500, true, 0, 0, 0)
	vGen(vMixed)
}
func verifC29LongOtherSide() {
	vRepeat(3, true, 1, 0, 0)
	vRepeat(2500, true, 1, 0, 0)
	vGen(vMixed)
}
func verifC29LongUseless() {
	vRepeat(300, true, 0, 0, 74)
	vRepeat(1, true, 0, 0, 0)
	vRepeat(300, true, 1, 0, 74)
	vRepeat(300, true, 0, 0, 74)
	vGen(vMixed)
}
