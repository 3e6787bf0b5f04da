package PRIME

import "github.com/henrydcase/nobs/verifrt"

func verifC26P34PRIME() {
	verifrt.Mode("PRIME.fp")
	for i := 0; i < 2; i++ {
		d, x, _ := vOperands(i)
		want := verifrt.FOf(&x.A).PowP(-3, 4)
		p34(&d.A, &x.A)
		verifrt.Assert("x^((p-3)/4)", verifrt.FEq(verifrt.FOf(&d.A), want))
	}
}
