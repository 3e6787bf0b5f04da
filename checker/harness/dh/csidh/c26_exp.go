package csidh

import "github.com/henrydcase/nobs/verifrt"

// exponentiation computes exactly b^e, for exponents with every window value
// in every position, and in place
func verifC26CsidhExp() {
	verifrt.Mode("csidh.field")
	verifrt.Mode("csidh.exp")
	for overlap := 0; overlap < 2; overlap++ {
		for i := 0; i < 4; i++ {
			var b, r fp
			verifrt.Havoc("b", &b)
			verifrt.Havoc("r", &r)
			old := b
			fb := verifrt.FOf(&b)
			dst := &r
			if overlap == 1 {
				dst = &b
			}
			want := verifrt.FInt(0)
			switch i {
			case 0:
				e := pMin1 // p-2
				modExpRdc512(dst, &b, &e)
				want = fb.Inv()
			case 1:
				e := pMin1By2
				modExpRdc512(dst, &b, &e)
				want = fb.PowP(-1, 2)
			case 2:
				modExpRdc64(dst, &b, 0x0123456789abcdef)
				want = fb.Pow(0x0123456789abcdef)
			case 3:
				modExpRdc64(dst, &b, 587)
				want = fb.Pow(587)
			}
			verifrt.Assert("b^e", verifrt.FEq(verifrt.FOf(dst), want))
			if overlap == 0 {
				verifrt.Assert("base unchanged", verifrt.Same(&b, &old))
			}
		}
	}
}
