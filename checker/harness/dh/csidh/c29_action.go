package csidh

import "github.com/henrydcase/nobs/verifrt"

// key generation: the curve with coefficient zero, whatever the key held
func vGen(f func(i int) int) {
	verifrt.Mode("csidh.field")
	verifrt.Mode("csidh.order")
	prv := vExps(f)
	var zero fp
	verifrt.CurveBase(&zero)
	pub := new(PublicKey)
	verifrt.Havoc("old", pub)
	keys := verifrt.Snapshot(prv.e)
	GeneratePublicKey(pub, prv, verifrt.GoodReader("rng"))
	verifrt.Assert("the private exponents are unchanged", verifrt.Unchanged(keys, prv.e))
	vAction(&pub.a, f)
}

func verifC29Zero() {
	verifrt.Draw("rng", true, 0, 0, 0, false)
	verifrt.Draw("rng", true, 1, 0, 0, false)
	vGen(func(i int) int { return 0 })
}

func verifC29Plus5() {
	verifrt.Draw("rng", true, 1, 0, 0, false)
	vGen(func(i int) int { return 5 })
}
func verifC29Minus5() { vGen(func(i int) int { return -5 }) }
func verifC29Alternating() {
	vGen(func(i int) int {
		if i&1 == 0 {
			return 3
		}
		return -4
	})
}

// every prime with every exponent
func verifC29Mixed0()  { vGen(func(i int) int { return i%11 - 5 }) }
func verifC29Mixed1()  { vGen(func(i int) int { return (i+1)%11 - 5 }) }
func verifC29Mixed2()  { vGen(func(i int) int { return (i+2)%11 - 5 }) }
func verifC29Mixed3()  { vGen(func(i int) int { return (i+3)%11 - 5 }) }
func verifC29Mixed4()  { vGen(func(i int) int { return (i+4)%11 - 5 }) }
func verifC29Mixed5()  { vGen(func(i int) int { return (i+5)%11 - 5 }) }
func verifC29Mixed6()  { vGen(func(i int) int { return (i+6)%11 - 5 }) }
func verifC29Mixed7()  { vGen(func(i int) int { return (i+7)%11 - 5 }) }
func verifC29Mixed8()  { vGen(func(i int) int { return (i+8)%11 - 5 }) }
func verifC29Mixed9()  { vGen(func(i int) int { return (i+9)%11 - 5 }) }
func verifC29Mixed10() { vGen(func(i int) int { return (i+10)%11 - 5 }) }

// exponents beyond those that GeneratePrivateKey chooses
func verifC29Extreme() {
	vGen(func(i int) int {
		if i%3 == 0 {
			return 7
		}
		return -8
	})
}

// a single prime, at either end
func verifC29First() {
	vGen(func(i int) int {
		if i == 0 {
			return -2
		}
		return 0
	})
}
func verifC29Last() {
	vGen(func(i int) int {
		if i == 73 {
			return 3
		}
		return 0
	})
}

// elements that are not below p are drawn again
func verifC29Resample() {
	verifrt.Draw("rng", false, 0, 0, 0, false)
	verifrt.Draw("rng", false, 0, 0, 0, false)
	verifrt.Draw("rng", true, 0, 0, 0, false)
	verifrt.Draw("rng", false, 1, 0, 0, false)
	verifrt.Draw("rng", true, 1, 0, 0, false)
	verifrt.Draw("rng", false, 0, 0, 0, false)
	vGen(vMixed)
}

// points that keep falling on a side that is done
func verifC29OneSided() {
	for k := 0; k < 12; k++ {
		verifrt.Draw("rng", true, 1, 0, 0, false)
	}
	vGen(vMixed)
}
func verifC29OtherSide() {
	for k := 0; k < 12; k++ {
		verifrt.Draw("rng", true, 0, 0, 0, false)
	}
	vGen(vMixed)
}

// points whose order lacks some of the primes
func verifC29Missing() {
	verifrt.Draw("rng", true, 0, 0, 1, false)
	verifrt.Draw("rng", true, 1, 73, 74, false)
	verifrt.Draw("rng", true, 0, 0, 74, false)
	verifrt.Draw("rng", true, 1, 30, 50, false)
	verifrt.Draw("rng", true, 0, 1, 73, false)
	verifrt.Draw("rng", true, 1, 5, 6, false)
	verifrt.Draw("rng", true, 0, 70, 74, false)
	verifrt.Draw("rng", true, 1, 0, 3, false)
	vGen(vMixed)
}

// the last point of a side lacks a prime that is still needed
func verifC29LateMissing() {
	for k := 0; k < 2; k++ {
		verifrt.Draw("rng", true, k, 0, 0, false)
		verifrt.Draw("rng", true, 1-k, 0, 0, false)
	}
	verifrt.Draw("rng", true, 0, 2, 7, false)
	verifrt.Draw("rng", true, 1, 2, 7, false)
	for k := 0; k < 4; k++ {
		verifrt.Draw("rng", true, k&1, 3*k, 10+3*k, false)
	}
	vGen(vMixed)
}
