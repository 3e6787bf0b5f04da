package csidh

import "github.com/henrydcase/nobs/verifrt"

// vSpread analyses exponents and draws scattered by a linear congruence.
func vSpread(seed uint64) {
	x := seed*0x9E3779B97F4A7C15 + 1
	next := func(n uint64) int {
		x = x*6364136223846793005 + 1442695040888963407
		return int((x >> 33) % n)
	}
	var e [74]int
	for i := range e {
		e[i] = next(11) - 5
	}
	for k := 0; k < 30; k++ {
		lo := next(74)
		hi := lo + next(6)
		if next(3) != 0 {
			lo, hi = 0, 0
		}
		verifrt.Draw("rng", next(4) != 0, next(2), lo, hi, false)
	}
	vGen(func(i int) int { return e[i] })
}

func verifC29Spread0()  { vSpread(1) }
func verifC29Spread1()  { vSpread(2) }
func verifC29Spread2()  { vSpread(3) }
func verifC29Spread3()  { vSpread(4) }
func verifC29Spread4()  { vSpread(5) }
func verifC29Spread5()  { vSpread(6) }
func verifC29Spread6()  { vSpread(7) }
func verifC29Spread7()  { vSpread(8) }
func verifC29Spread8()  { vSpread(9) }
func verifC29Spread9()  { vSpread(10) }
func verifC29Spread10() { vSpread(11) }
func verifC29Spread11() { vSpread(12) }
func verifC29Spread12() { vSpread(13) }
func verifC29Spread13() { vSpread(14) }
func verifC29Spread14() { vSpread(15) }
func verifC29Spread15() { vSpread(16) }
func verifC29Spread16() { vSpread(17) }
func verifC29Spread17() { vSpread(18) }
func verifC29Spread18() { vSpread(19) }
func verifC29Spread19() { vSpread(20) }
func verifC29Spread20() { vSpread(21) }
func verifC29Spread21() { vSpread(22) }
func verifC29Spread22() { vSpread(23) }
func verifC29Spread23() { vSpread(24) }
func verifC29Spread24() { vSpread(25) }
func verifC29Spread25() { vSpread(26) }
func verifC29Spread26() { vSpread(27) }
func verifC29Spread27() { vSpread(28) }
func verifC29Spread28() { vSpread(29) }
func verifC29Spread29() { vSpread(30) }
func verifC29Spread30() { vSpread(31) }
func verifC29Spread31() { vSpread(32) }
