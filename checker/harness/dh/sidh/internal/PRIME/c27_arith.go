package PRIME

import (
	"math/bits"

	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/verifrt"
)

// vShape is the number of words and the exponents of 2 and 3 in p+1.
func vShape() (words, e2, e3 int) {
	switch "PRIME" {
	case "p434":
		return 7, 216, 137
	case "p503":
		return 8, 250, 159
	}
	return 12, 372, 239
}

// vTimes is k*a on twice the words.
func vTimes(a [24]uint64, k uint64) (r [24]uint64) {
	var c uint64
	for i := 0; i < 24; i++ {
		hi, lo := bits.Mul64(a[i], k)
		lo, cc := bits.Add64(lo, c, 0)
		r[i], c = lo, hi+cc
	}
	return
}

// vMod gives p, 2p and p*2^(64 words).
func vMod() (p, p2, pR []uint64) {
	w, e2, e3 := vShape()
	var a [24]uint64
	a[0] = 1
	for i := 0; i < e3; i++ {
		a = vTimes(a, 3)
	}
	for i := 0; i < e2; i++ {
		a = vTimes(a, 2)
	}
	var c uint64 = 1
	for i := 0; i < 24; i++ {
		a[i], c = bits.Sub64(a[i], 0, c)
	}
	d := vTimes(a, 2)
	var r [24]uint64
	for i := 0; i < w; i++ {
		r[w+i] = a[i]
	}
	return a[:w], d[:w], r[:]
}

var vNo = []uint64{0}

func vFp(name string, z *common.Fp, bound []uint64) []uint64 {
	w, _, _ := vShape()
	verifrt.NumIn(name, z[:w], bound)
	return z[:w]
}

func vFpX2(name string, z *common.FpX2, bound []uint64) []uint64 {
	w, _, _ := vShape()
	verifrt.NumIn(name, z[:2*w], bound)
	return z[:2*w]
}

// vTwo runs a routine of two operands in every arrangement of its arguments.
func vTwo(f func(z, x, y *common.Fp), expr, same string) {
	verifrt.Mode("num")
	p, p2, _ := vMod()
	w, _, _ := vShape()
	var x, y, z common.Fp
	vFp("x", &x, p2)
	vFp("y", &y, p2)
	a, b := x, y
	f(&z, &x, &y)
	verifrt.NumCheck("congruent and in range", z[:w], expr, p, p2, 0)
	verifrt.Assert("operands unchanged", x == a && y == b)
	x, y = a, b
	f(&x, &x, &y)
	verifrt.NumCheck("first operand replaced", x[:w], expr, p, p2, 0)
	x, y = a, b
	f(&y, &x, &y)
	verifrt.NumCheck("second operand replaced", y[:w], expr, p, p2, 0)
	x, y = a, b
	f(&z, &x, &x)
	verifrt.NumCheck("equal operands", z[:w], same, p, p2, 0)
	verifrt.Cover("all arrangements")
}

func verifC27Add() { vTwo(addPRIMEU, "x+y", "x+x") }
func verifC27Sub() { vTwo(subPRIMEU, "x-y", "x-x") }

func verifC27Mod() {
	verifrt.Mode("num")
	p, p2, _ := vMod()
	w, _, _ := vShape()
	var x common.Fp
	vFp("x", &x, p2)
	modPRIMEU(&x)
	verifrt.NumCheck("reduced", x[:w], "x", p, p, 0)
}

func verifC27Mul() {
	verifrt.Mode("num")
	w, _, _ := vShape()
	var x, y common.Fp
	var z common.FpX2
	_, p2, _ := vMod()
	var top common.Fp // operands up to 2p: their top word is bounded
	top[w-1] = p2[w-1] + 1
	vFp("x", &x, top[:w])
	vFp("y", &y, top[:w])
	mulPRIMEU(&z, &x, &y)
	verifrt.NumCheck("exact product", z[:2*w], "x*y", vNo, vNo, 0)
}

func verifC27Sqr() {
	verifrt.Mode("num")
	w, _, _ := vShape()
	var x common.Fp
	var z common.FpX2
	_, p2, _ := vMod()
	var top common.Fp
	top[w-1] = p2[w-1] + 1
	vFp("x", &x, top[:w])
	mulPRIMEU(&z, &x, &x)
	verifrt.NumCheck("exact square", z[:2*w], "x*x", vNo, vNo, 0)
}

func verifC27Rdc() {
	verifrt.Mode("num")
	p, p2, pR := vMod()
	w, _, _ := vShape()
	var x common.FpX2
	var z common.Fp
	vFpX2("x", &x, pR)
	rdcPRIMEU(&z, &x)
	verifrt.NumCheck("Montgomery reduction", z[:w], "x", p, p2, w)
}

func verifC27Adl() {
	verifrt.Mode("num")
	w, _, _ := vShape()
	var x, y, z common.FpX2
	vFpX2("x", &x, vNo)
	vFpX2("y", &y, vNo)
	a, b := x, y
	adlPRIMEU(&z, &x, &y)
	verifrt.NumCheck("sum", z[:2*w], "x+y", vNo, vNo, 0)
	adlPRIMEU(&x, &x, &y)
	verifrt.NumCheck("first operand replaced", x[:2*w], "x+y", vNo, vNo, 0)
	x, y = a, b
	adlPRIMEU(&y, &x, &y)
	verifrt.NumCheck("second operand replaced", y[:2*w], "x+y", vNo, vNo, 0)
}

func verifC27Sul() {
	verifrt.Mode("num")
	p, _, pR := vMod()
	w, _, _ := vShape()
	var x, y, z common.FpX2
	vFpX2("x", &x, pR)
	vFpX2("y", &y, pR)
	a, b := x, y
	sulPRIMEU(&z, &x, &y)
	verifrt.NumCheck("difference", z[:2*w], "x-y", p, pR, 0)
	sulPRIMEU(&x, &x, &y)
	verifrt.NumCheck("first operand replaced", x[:2*w], "x-y", p, pR, 0)
	x, y = a, b
	sulPRIMEU(&y, &x, &y)
	verifrt.NumCheck("second operand replaced", y[:2*w], "x-y", p, pR, 0)
}

func verifC27Cswap() {
	verifrt.Mode("num")
	w, _, _ := vShape()
	var x, y common.Fp
	vFp("x", &x, vNo)
	vFp("y", &y, vNo)
	a, b := x, y
	cswapPRIMEU(&x, &y, 0)
	verifrt.Assert("kept for 0", x == a && y == b)
	cswapPRIMEU(&x, &y, 1)
	for i := 0; i < w; i++ {
		verifrt.Assert("swapped for 1", x[i] == b[i] && y[i] == a[i])
	}
}
