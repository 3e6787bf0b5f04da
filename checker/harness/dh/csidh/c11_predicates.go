package csidh

import "github.com/henrydcase/nobs/verifrt"

func verifC11IsLess() {
	var x, y fp
	verifrt.Havoc("x", &x)
	verifrt.Havoc("y", &y)
	oldX, oldY := x, y
	less := false
	for i := range x {
		less = x[i] < y[i] || x[i] == y[i] && less
	}
	verifrt.Assert("numbers are compared as 512-bit integers", isLess(&x, &y) == less)
	verifrt.Assert("a number is not less than itself", !isLess(&x, &x))
	verifrt.Assert("operands unchanged", verifrt.And(verifrt.Same(&x, &oldX), verifrt.Same(&y, &oldY)))
}

func verifC11IsLessP() {
	var x fp
	verifrt.Havoc("x", &x)
	less := false
	for i := range x {
		less = x[i] < p[i] || x[i] == p[i] && less
	}
	verifrt.Assert("compared with the field's prime", isLess(&x, &p) == less)
}

func verifC11IsZero() {
	var x fp
	verifrt.Havoc("x", &x)
	oldX := x
	verifrt.Assert("true for zero only", x.isZero() == (x == fp{}))
	verifrt.Assert("operand unchanged", verifrt.Same(&x, &oldX))
	var z fp
	verifrt.Assert("true for zero", z.isZero())
}

// Euler's criterion
func verifC11Residue() {
	verifrt.Mode("csidh.field")
	var x, r fp
	verifrt.Havoc("x", &x)
	oldX := x
	modExpRdc512(&r, &x, &pMin1By2)
	got := x.isNonQuadRes()
	verifrt.Assert("0 for squares", verifrt.Implies(r == one, got == 0))
	verifrt.Assert("1 for non-squares", verifrt.Implies(r != one, got == 1))
	verifrt.Assert("operand unchanged", verifrt.Same(&x, &oldX))
}
