package csidh

import "github.com/henrydcase/nobs/verifrt"

func verifC26CsidhEval() {
	verifrt.Mode("csidh.field")
	var r, a, x fp
	verifrt.Havoc("r", &r)
	verifrt.Havoc("a", &a)
	verifrt.Havoc("x", &x)
	oldA, oldX := a, x
	fx, fa := verifrt.FOf(&x), verifrt.FOf(&a)
	montEval(&r, &a, &x)
	verifrt.Assert("x^3 + A x^2 + x", verifrt.FEq(verifrt.FOf(&r), fx.Mul(fx.Sqr().Add(fa.Mul(fx)).Add(verifrt.FInt(1)))))
	verifrt.Assert("operands unchanged", verifrt.And(verifrt.Same(&a, &oldA), verifrt.Same(&x, &oldX)))
}
