package csidh

import (
	"math/bits"

	"github.com/henrydcase/nobs/verifrt"
)

// vPrime computes 4*3*5*...*373*587-1 from its definition.
func vPrime() []uint64 {
	a := [8]uint64{4}
	mul := func(k uint64) {
		var c uint64
		for i := range a {
			hi, lo := bits.Mul64(a[i], k)
			lo, cc := bits.Add64(lo, c, 0)
			a[i], c = lo, hi+cc
		}
	}
	for q := uint64(3); q <= 373; q += 2 {
		ok := true
		for d := uint64(3); d*d <= q; d += 2 {
			if q%d == 0 {
				ok = false
			}
		}
		if ok {
			mul(q)
		}
	}
	mul(587)
	a[0]--
	return a[:]
}

func vNum(name string, z *fp, bound []uint64) []uint64 {
	verifrt.NumIn(name, z[:8], bound)
	return z[:8]
}

var vAny = []uint64{0}

// vThree runs a routine of two operands in every arrangement of its arguments.
func vThree(f func(r, x, y *fp), expr, same string, mont int) {
	verifrt.Mode("num")
	q := vPrime()
	var x, y, r fp
	vNum("x", &x, q)
	vNum("y", &y, q)
	a, b := x, y
	f(&r, &x, &y)
	verifrt.NumCheck("value", r[:8], expr, q, q, mont)
	verifrt.Assert("operands unchanged", x == a && y == b)
	x, y = a, b
	f(&x, &x, &y)
	verifrt.NumCheck("first operand replaced", x[:8], expr, q, q, mont)
	x, y = a, b
	f(&y, &x, &y)
	verifrt.NumCheck("second operand replaced", y[:8], expr, q, q, mont)
	x, y = a, b
	f(&r, &x, &x)
	verifrt.NumCheck("equal operands", r[:8], same, q, q, mont)
	x, y = a, b
	f(&x, &x, &x)
	verifrt.NumCheck("in place", x[:8], same, q, q, mont)
	verifrt.Cover("all arrangements")
}

func verifC27Add() { vThree(addRdc, "x+y", "x+x", 0) }
func verifC27Sub() { vThree(subRdc, "x-y", "x-x", 0) }
func verifC27Mul() { vThree(mulRdc, "x*y", "x*x", 8) }

// The product is reduced whatever one of the factors was.
func verifC27MulAny() {
	verifrt.Mode("num")
	q := vPrime()
	var x, y, r fp
	vNum("x", &x, vAny)
	vNum("y", &y, q)
	mulRdc(&r, &x, &y)
	verifrt.NumCheck("value", r[:8], "x*y", q, q, 8)
}

func verifC27Mul512() {
	verifrt.Mode("num")
	var r, x fp
	m := []uint64{0}
	vNum("x", &x, vAny)
	verifrt.NumIn("m", m, vAny)
	a := x
	mul512(&r, &x, m[0])
	verifrt.NumCheck("product modulo 2^512", r[:8], "x*m", vAny, vAny, 0)
	verifrt.Assert("operand unchanged", x == a)
	mul512(&x, &x, m[0])
	verifrt.NumCheck("in place", x[:8], "x*m", vAny, vAny, 0)
}

func verifC27Cswap() {
	verifrt.Mode("num")
	var x, y fp
	vNum("x", &x, vAny)
	vNum("y", &y, vAny)
	a, b := x, y
	cswap512(&x, &y, 0)
	verifrt.Assert("kept for 0", x == a && y == b)
	cswap512(&x, &y, 1)
	verifrt.Assert("swapped for 1", x == b && y == a)
}
