package PRIME

import (
	. "github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/verifrt"
)

func verifC26RecoverAPRIME() {
	verifrt.Mode("PRIME.fp2")
	var c ProjectiveCurveParameters
	var x [3]Fp2
	verifrt.Havoc("c", &c)
	verifrt.Havoc("x", &x)
	old, oc := x, c
	p, q, r := verifrt.FOf(&x[0]), verifrt.FOf(&x[1]), verifrt.FOf(&x[2])
	RecoverCoordinateA(&c, &x[0], &x[1], &x[2])
	pqr := p.Mul(q).Mul(r)
	n := verifrt.FInt(1).Sub(p.Mul(q)).Sub(p.Mul(r)).Sub(q.Mul(r)).Sqr()
	verifrt.Assert("A of the three x-coordinates", verifrt.FEq(verifrt.FOf(&c.A), n.Mul(pqr.Times(4).Inv()).Sub(p).Sub(q).Sub(r)))
	verifrt.Assert("denominator and operands unchanged", verifrt.And(verifrt.Same(&x, &old), verifrt.FEq(verifrt.FOf(&c.C), verifrt.FOf(&oc.C))))
}

func verifC26CoefficientsPRIME() {
	verifrt.Mode("PRIME.fp2")
	var c ProjectiveCurveParameters
	var e CurveCoefficientsEquiv
	verifrt.Havoc("c", &c)
	verifrt.Havoc("e", &e)
	old := e
	RecoverCurveCoefficients3(&c, &e)
	verifrt.Assert("(A : C) of (A+2C : A-2C)", vFrom3(&e).same(vCurve(&c)))
	verifrt.Havoc("c", &c)
	RecoverCurveCoefficients4(&c, &e)
	verifrt.Assert("(A : C) of (A+2C : 4C)", vFrom4(&e).same(vCurve(&c)))
	verifrt.Assert("operand unchanged", verifrt.Same(&e, &old))
	verifrt.Havoc("c", &c)
	oc := c
	r := CalcAplus2Over4(&c)
	f := vCurve(&c)
	verifrt.Assert("(A+2C)/4C", verifrt.FEq(verifrt.FOf(&r).Mul(f.z.Times(4)), f.x.Add(f.z.Times(2))))
	verifrt.Assert("curve unchanged", verifrt.Same(&c, &oc))
}

func verifC26DblAddPRIME() {
	verifrt.Mode("PRIME.fp2")
	var P, Q, D ProjectivePoint
	var a24 Fp2
	verifrt.Havoc("P", &P)
	verifrt.Havoc("Q", &Q)
	verifrt.Havoc("D", &D)
	verifrt.Havoc("a24", &a24)
	oP, oQ, oD, oa := P, Q, D, a24
	a := vProj{verifrt.FOf(&a24).Times(4).Sub(verifrt.FInt(2)), verifrt.FInt(1)}
	d, s := xDbladd(&P, &Q, &D, &a24)
	verifrt.Assert("x(2P)", vPt(&d).same(vDbl(vPt(&P), a)))
	verifrt.Assert("x(P+Q)", vPt(&s).same(vAdd(vPt(&P), vPt(&Q), vPt(&D))))
	verifrt.Assert("operands unchanged", verifrt.And(verifrt.And(verifrt.Same(&P, &oP), verifrt.Same(&Q, &oQ)), verifrt.And(verifrt.Same(&D, &oD), verifrt.Same(&a24, &oa))))
}

// kernel x3 = X/Z of order 3: A'+2C' : A'-2C' = (X-Z)... as in the SIKE
// specification, evaluated twice and in place; an earlier use leaves no trace
func verifC26Isogeny3PRIME() {
	verifrt.Mode("PRIME.fp2")
	var phi isogeny3
	var K, P ProjectivePoint
	verifrt.Havoc("phi", &phi)
	verifrt.Havoc("K", &K)
	verifrt.Havoc("P", &P)
	oK, oP := K, P
	k, p := vPt(&K), vPt(&P)
	c := phi.GenerateCurve(&K)
	u, v := k.x.Times(3).Add(k.z), k.x.Times(3).Sub(k.z)
	plus := u.Sqr().Mul(u).Mul(k.x.Sub(k.z))
	minus := v.Sqr().Mul(v).Mul(k.x.Add(k.z))
	verifrt.Assert("(A'+2C' : A'-2C')", vProj{verifrt.FOf(&c.A), verifrt.FOf(&c.C)}.same(vProj{plus, minus}))
	want := vProj{
		p.x.Mul(p.x.Mul(k.x).Sub(p.z.Mul(k.z)).Sqr()),
		p.z.Mul(p.x.Mul(k.z).Sub(p.z.Mul(k.x)).Sqr())}
	q := phi.EvaluatePoint(&P)
	verifrt.Assert("image of a point", vPt(&q).same(want))
	verifrt.Assert("operands unchanged", verifrt.And(verifrt.Same(&K, &oK), verifrt.Same(&P, &oP)))
	P = phi.EvaluatePoint(&P)
	verifrt.Assert("image of a second point", vPt(&P).same(want))
}

func verifC26Isogeny4PRIME() {
	verifrt.Mode("PRIME.fp2")
	var phi isogeny4
	var K, P ProjectivePoint
	verifrt.Havoc("phi", &phi)
	verifrt.Havoc("K", &K)
	verifrt.Havoc("P", &P)
	oK, oP := K, P
	k, p := vPt(&K), vPt(&P)
	c := phi.GenerateCurve(&K)
	// A' = 4 x4^4 - 2
	x4, z4 := k.x.Sqr().Sqr(), k.z.Sqr().Sqr()
	verifrt.Assert("(A'+2C' : 4C')", vFrom4(&c).same(vProj{x4.Times(4).Sub(z4.Times(2)), z4}))
	// phi(x) = -(x x4^2 + x - 2 x4) x (x x4 - 1)^2 / ((x - x4)^2 (2 x x4 - x4^2 - 1))
	kx2, kz2, kxz := k.x.Sqr(), k.z.Sqr(), k.x.Mul(k.z)
	n := p.z.Mul(kxz).Times(2).Sub(p.x.Mul(kx2)).Sub(p.x.Mul(kz2)).Mul(p.x).Mul(p.x.Mul(k.x).Sub(p.z.Mul(k.z)).Sqr())
	d := p.x.Mul(k.z).Sub(p.z.Mul(k.x)).Sqr().Mul(p.x.Mul(kxz).Times(2).Sub(p.z.Mul(kx2)).Sub(p.z.Mul(kz2))).Mul(p.z)
	want := vProj{n, d}
	q := phi.EvaluatePoint(&P)
	verifrt.Assert("image of a point", vPt(&q).same(want))
	verifrt.Assert("operands unchanged", verifrt.And(verifrt.Same(&K, &oK), verifrt.Same(&P, &oP)))
	P = phi.EvaluatePoint(&P)
	verifrt.Assert("image of a second point", vPt(&P).same(want))
}
