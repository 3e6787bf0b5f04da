package PRIME

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/verifrt"
)

type vC struct{ a, b verifrt.F }

func vElem(x *common.Fp2) vC { return vC{verifrt.FOf(&x.A), verifrt.FOf(&x.B)} }
func (x vC) same(y vC) bool  { return verifrt.And(verifrt.FEq(x.a, y.a), verifrt.FEq(x.b, y.b)) }
func (x vC) mul(y vC) vC {
	return vC{x.a.Mul(y.a).Sub(x.b.Mul(y.b)), x.a.Mul(y.b).Add(x.b.Mul(y.a))}
}

// operands: 0 all distinct, 1 result is the first, 2 result is the second,
// 3 both the same, 4 all the same
func vOperands(i int) (d, x, y *common.Fp2) {
	d, x, y = new(common.Fp2), new(common.Fp2), new(common.Fp2)
	switch i {
	case 1:
		d = x
	case 2:
		d = y
	case 3:
		y = x
	case 4:
		d, y = x, x
	}
	verifrt.Havoc("d", d)
	verifrt.Havoc("x", x)
	verifrt.Havoc("y", y)
	return
}

func verifC26Fp2AddSubMulPRIME() {
	verifrt.Mode("PRIME.fp")
	for op := 0; op < 3; op++ {
		for i := 0; i < 5; i++ {
			d, x, y := vOperands(i)
			ox, oy := *x, *y
			fx, fy := vElem(x), vElem(y)
			switch op {
			case 0:
				add(d, x, y)
				verifrt.Assert("sum", vElem(d).same(vC{fx.a.Add(fy.a), fx.b.Add(fy.b)}))
			case 1:
				sub(d, x, y)
				verifrt.Assert("difference", vElem(d).same(vC{fx.a.Sub(fy.a), fx.b.Sub(fy.b)}))
			case 2:
				mul(d, x, y)
				verifrt.Assert("product", vElem(d).same(fx.mul(fy)))
			}
			if d != x {
				verifrt.Assert("operand unchanged", verifrt.Same(x, &ox))
			}
			if d != y {
				verifrt.Assert("operand unchanged", verifrt.Same(y, &oy))
			}
		}
	}
}

func verifC26Fp2SqrInvPRIME() {
	verifrt.Mode("PRIME.fp")
	for op := 0; op < 2; op++ {
		for i := 0; i < 2; i++ {
			d, x, _ := vOperands(i)
			ox := *x
			fx := vElem(x)
			if op == 0 {
				sqr(d, x)
				verifrt.Assert("square", vElem(d).same(fx.mul(fx)))
			} else {
				inv(d, x)
				n := fx.a.Sqr().Add(fx.b.Sqr()).Inv()
				verifrt.Assert("inverse", vElem(d).same(vC{fx.a.Mul(n), verifrt.FInt(0).Sub(fx.b.Mul(n))}))
			}
			if d != x {
				verifrt.Assert("operand unchanged", verifrt.Same(x, &ox))
			}
		}
	}
}

func verifC26FpMulPRIME() {
	verifrt.Mode("PRIME.fp")
	for i := 0; i < 5; i++ {
		d, x, y := vOperands(i)
		want := verifrt.FOf(&x.A).Mul(verifrt.FOf(&y.A))
		oy := *y
		mulP(&d.A, &x.A, &y.A)
		verifrt.Assert("product", verifrt.FEq(verifrt.FOf(&d.A), want))
		if d != y {
			verifrt.Assert("operand unchanged", verifrt.Same(y, &oy))
		}
	}
}

func verifC26MontgomeryPRIME() {
	verifrt.Mode("PRIME.fp")
	r := verifrt.FR()
	for i := 0; i < 2; i++ {
		d, x, _ := vOperands(i)
		fx := vElem(x)
		ToMontgomery(d, x)
		verifrt.Assert("times R", vElem(d).same(vC{fx.a.Mul(r), fx.b.Mul(r)}))
		d, x, _ = vOperands(i)
		fx = vElem(x)
		for k := FpWords; k < len(x.A); k++ {
			x.A[k], x.B[k] = 0, 0
		}
		FromMontgomery(d, x)
		verifrt.Assert("divided by R", vElem(d).same(vC{fx.a.Mul(r.Inv()), fx.b.Mul(r.Inv())}))
	}
}

// the swap exchanges exactly the two points or nothing
func verifC26SwapPRIME() {
	verifrt.Mode("PRIME.fp")
	for c := 0; c < 2; c++ {
		var a, b, x, y common.Fp2
		verifrt.Havoc("a", &a)
		verifrt.Havoc("b", &b)
		verifrt.Havoc("x", &x)
		verifrt.Havoc("y", &y)
		fa, fb, fx, fy := vElem(&a), vElem(&b), vElem(&x), vElem(&y)
		cswap(&a, &b, &x, &y, uint8(c))
		if c == 1 {
			fa, fb, fx, fy = fx, fy, fa, fb
		}
		verifrt.Assert("first point", verifrt.And(vElem(&a).same(fa), vElem(&b).same(fb)))
		verifrt.Assert("second point", verifrt.And(vElem(&x).same(fx), vElem(&y).same(fy)))
	}
}
