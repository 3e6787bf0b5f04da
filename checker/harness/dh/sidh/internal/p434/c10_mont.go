package p434

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/verifrt"
)

// both conversions, for separate and for the same operand
func verifC10Montgomery434() {
	for same := 0; same < 2; same++ {
		var in, out common.Fp2
		verifrt.Havoc("in", &in)
		verifrt.Havoc("out", &out)
		old := in
		dst := &out
		if same == 1 {
			dst = &in
		}
		ToMontgomery(dst, &in)
		if same == 0 {
			verifrt.Assert("source unchanged", in == old)
		}
		var t common.FpX2
		var a, b common.Fp
		mulP434(&t, &old.A, &P434R2)
		rdcP434(&a, &t)
		mulP434(&t, &old.B, &P434R2)
		rdcP434(&b, &t)
		for i := 0; i < 7; i++ {
			verifrt.Assert("real part times R^2, reduced", dst.A[i] == a[i])
			verifrt.Assert("imaginary part times R^2, reduced", dst.B[i] == b[i])
		}
		verifrt.Havoc("in2", &in)
		verifrt.Havoc("out2", &out)
		for i := 7; i < len(in.A); i++ {
			in.A[i], in.B[i] = 0, 0
		}
		old = in
		FromMontgomery(dst, &in)
		if same == 0 {
			verifrt.Assert("source unchanged", in == old)
		}
		var ra, rb common.FpX2
		copy(ra[:7], old.A[:7])
		copy(rb[:7], old.B[:7])
		rdcP434(&a, &ra)
		modP434(&a)
		rdcP434(&b, &rb)
		modP434(&b)
		for i := 0; i < 7; i++ {
			verifrt.Assert("real part reduced to canonical form", dst.A[i] == a[i])
			verifrt.Assert("imaginary part reduced to canonical form", dst.B[i] == b[i])
		}
	}
}
