package PRIME

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/verifrt"
)

// The portable field arithmetic (assembly versions are judged by the assembly
// analysis): every operand is secret.
func verifC22Arith() {
	verifrt.Mode("fpgo")
	verifrt.Mode("ct")
	var x, y, z common.Fp
	var u, v, w common.FpX2
	verifrt.Havoc("secretX", &x)
	verifrt.Havoc("secretY", &y)
	verifrt.Havoc("secretU", &u)
	verifrt.Havoc("secretV", &v)
	addPRIMEU(&z, &x, &y)
	subPRIMEU(&z, &x, &y)
	mulPRIMEU(&w, &x, &y)
	adlPRIMEU(&w, &u, &v)
	sulPRIMEU(&w, &u, &v)
	rdcPRIMEU(&z, &u)
	modPRIMEU(&x)
	verifrt.Havoc("secretX", &x)
	cswapPRIMEU(&x, &y, verifrt.U8("secretChoice")&1)
	verifrt.Assert("the analysis reaches the end", true)
	verifrt.Cover("all primitives")
}
