package p503

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/verifrt"
)

// both conversions, for separate and for the same operand
func verifC10Montgomery503() {
	for same := 0; same < 2; same++ {
		var in, out common.Fp2
		verifrt.Havoc("in", &in)
		verifrt.Havoc("out", &out)
		old := in
		dst := &out
		if same == 1 {
			dst = &in
		}
		ToMontgomery(dst, &in)
		if same == 0 {
			verifrt.Assert("source unchanged", in == old)
		}
		var t common.FpX2
		var a, b common.Fp
		mulP503(&t, &old.A, &P503R2)
		rdcP503(&a, &t)
		mulP503(&t, &old.B, &P503R2)
		rdcP503(&b, &t)
		for i := 0; i < 8; i++ {
			verifrt.Assert("real part times R^2, reduced", dst.A[i] == a[i])
			verifrt.Assert("imaginary part times R^2, reduced", dst.B[i] == b[i])
		}
		verifrt.Havoc("in2", &in)
		verifrt.Havoc("out2", &out)
		for i := 8; i < len(in.A); i++ {
			in.A[i], in.B[i] = 0, 0
		}
		old = in
		FromMontgomery(dst, &in)
		if same == 0 {
			verifrt.Assert("source unchanged", in == old)
		}
		var ra, rb common.FpX2
		copy(ra[:8], old.A[:8])
		copy(rb[:8], old.B[:8])
		rdcP503(&a, &ra)
		modP503(&a)
		rdcP503(&b, &rb)
		modP503(&b)
		for i := 0; i < 8; i++ {
			verifrt.Assert("real part reduced to canonical form", dst.A[i] == a[i])
			verifrt.Assert("imaginary part reduced to canonical form", dst.B[i] == b[i])
		}
	}
}
