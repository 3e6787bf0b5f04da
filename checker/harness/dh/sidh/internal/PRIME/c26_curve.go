package PRIME

import (
	. "github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/verifrt"
)

type vProj struct{ x, z verifrt.F }

func vPt(p *ProjectivePoint) vProj { return vProj{verifrt.FOf(&p.X), verifrt.FOf(&p.Z)} }
func (p vProj) same(q vProj) bool {
	return verifrt.And(verifrt.FEq(p.x.Mul(q.z), q.x.Mul(p.z)), !verifrt.And(verifrt.FZero(p.x), verifrt.FZero(p.z)))
}

// x(2P) = (x^2-1)^2 / (4x(x^2+Ax+1))
func vDbl(p, a vProj) vProj {
	x2, z2, xz := p.x.Sqr(), p.z.Sqr(), p.x.Mul(p.z)
	return vProj{x2.Sub(z2).Sqr().Mul(a.z), xz.Times(4).Mul(x2.Mul(a.z).Add(a.x.Mul(xz)).Add(z2.Mul(a.z)))}
}

// x(3P) = x (x^4 - 4Ax - 6x^2 - 3)^2 / (4Ax^3 + 3x^4 + 6x^2 - 1)^2
func vTpl(p, a vProj) vProj {
	x2, z2, xz := p.x.Sqr(), p.z.Sqr(), p.x.Mul(p.z)
	n := x2.Sqr().Mul(a.z).Sub(a.x.Mul(xz).Mul(z2).Times(4)).Sub(x2.Mul(z2).Mul(a.z).Times(6)).Sub(z2.Sqr().Mul(a.z).Times(3))
	d := a.x.Mul(xz).Mul(x2).Times(4).Add(x2.Sqr().Mul(a.z).Times(3)).Add(x2.Mul(z2).Mul(a.z).Times(6)).Sub(z2.Sqr().Mul(a.z))
	return vProj{p.x.Mul(n.Sqr()), p.z.Mul(d.Sqr())}
}

// x(P+Q) = ((xP xQ - 1) / (xP - xQ))^2 / x(P-Q)
func vAdd(p, q, d vProj) vProj {
	n := p.x.Mul(q.x).Sub(p.z.Mul(q.z)).Sqr()
	m := p.x.Mul(q.z).Sub(p.z.Mul(q.x)).Sqr()
	return vProj{n.Mul(d.z), m.Mul(d.x)}
}

// (A+2C : 4C) and (A+2C : A-2C) as (A : C)
func vFrom4(c *CurveCoefficientsEquiv) vProj {
	a, d := verifrt.FOf(&c.A), verifrt.FOf(&c.C)
	return vProj{a.Times(4).Sub(d.Times(2)), d}
}
func vFrom3(c *CurveCoefficientsEquiv) vProj {
	p, m := verifrt.FOf(&c.A), verifrt.FOf(&c.C)
	return vProj{p.Add(m).Times(2), p.Sub(m)}
}

func vCurve(c *ProjectiveCurveParameters) vProj { return vProj{verifrt.FOf(&c.A), verifrt.FOf(&c.C)} }

func verifC26JinvariantPRIME() {
	verifrt.Mode("PRIME.fp2")
	var c ProjectiveCurveParameters
	var j Fp2
	verifrt.Havoc("c", &c)
	verifrt.Havoc("j", &j)
	old := c
	a2, c2 := verifrt.FOf(&c.A).Sqr(), verifrt.FOf(&c.C).Sqr()
	n := a2.Sub(c2.Times(3))
	Jinvariant(&c, &j)
	verifrt.Assert("256 (A^2-3C^2)^3 / (C^4 (A^2-4C^2))",
		verifrt.FEq(verifrt.FOf(&j), n.Mul(n.Sqr()).Times(256).Mul(c2.Sqr().Mul(a2.Sub(c2.Times(4))).Inv())))
	verifrt.Assert("curve unchanged", verifrt.Same(&c, &old))
}

func verifC26EquivPRIME() {
	verifrt.Mode("PRIME.fp2")
	var c ProjectiveCurveParameters
	verifrt.Havoc("c", &c)
	old := c
	e3 := CalcCurveParamsEquiv3(&c)
	verifrt.Assert("(A+2C : A-2C)", vFrom3(&e3).same(vCurve(&c)))
	e4 := CalcCurveParamsEquiv4(&c)
	verifrt.Assert("(A+2C : 4C)", vFrom4(&e4).same(vCurve(&c)))
	verifrt.Assert("curve unchanged", verifrt.Same(&c, &old))
}

func verifC26BatchInvPRIME() {
	verifrt.Mode("PRIME.fp2")
	var x, y [3]Fp2
	verifrt.Havoc("x", &x)
	verifrt.Havoc("y", &y)
	old := x
	Fp2Batch3Inv(&x[0], &x[1], &x[2], &y[0], &y[1], &y[2])
	for i := range x {
		verifrt.Assert("1/x", verifrt.FEq(verifrt.FOf(&y[i]), verifrt.FOf(&old[i]).Inv()))
	}
	verifrt.Assert("operands unchanged", verifrt.Same(&x, &old))
}

func verifC26DoublePRIME() {
	verifrt.Mode("PRIME.fp2")
	for k := uint32(0); k < 3; k++ {
		var P ProjectivePoint
		var c CurveCoefficientsEquiv
		verifrt.Havoc("P", &P)
		verifrt.Havoc("c", &c)
		old := c
		want := vPt(&P)
		for i := uint32(0); i < k; i++ {
			want = vDbl(want, vFrom4(&c))
		}
		Pow2k(&P, &c, k)
		verifrt.Assert("x(2^k P)", vPt(&P).same(want))
		verifrt.Assert("curve unchanged", verifrt.Same(&c, &old))
	}
}

func verifC26TriplePRIME() {
	verifrt.Mode("PRIME.fp2")
	for k := uint32(0); k < 2; k++ {
		var P ProjectivePoint
		var c CurveCoefficientsEquiv
		verifrt.Havoc("P", &P)
		verifrt.Havoc("c", &c)
		old := c
		want := vPt(&P)
		for i := uint32(0); i < k; i++ {
			want = vTpl(want, vFrom3(&c))
		}
		Pow3k(&P, &c, k)
		verifrt.Assert("x(3^k P)", vPt(&P).same(want))
		verifrt.Assert("curve unchanged", verifrt.Same(&c, &old))
	}
}

func vKnownPoint(s uint64) ProjectivePoint {
	var p ProjectivePoint
	for i := 0; i < FpWords-1; i++ {
		p.X.A[i], p.X.B[i] = s*0x9e3779b97f4a7c15+uint64(i), s*0xbf58476d1ce4e5b9+uint64(3*i)
		p.Z.A[i], p.Z.B[i] = s*0x94d049bb133111eb+uint64(5*i), s*0x2545f4914f6cdd1d+uint64(7*i)
	}
	return p
}

// numbers of steps in use, for a known point and curve
func verifC26PowersPRIME() {
	verifrt.Mode("PRIME.fp2")
	cc := vKnownPoint(9)
	c := CurveCoefficientsEquiv{A: cc.X, C: cc.Z}
	a4, a3 := vFrom4(&c), vFrom3(&c)
	start := vKnownPoint(5)
	two, three := vPt(&start), vPt(&start)
	for k := uint32(0); k <= 160; k++ {
		if k > 48 && k%8 != 0 && k != 63 {
			two, three = vDbl(two, a4), vTpl(three, a3)
			continue
		}
		P, Q := start, start
		Pow2k(&P, &c, k)
		verifrt.Assert("x(2^k P)", vPt(&P).same(two))
		Pow3k(&Q, &c, k)
		verifrt.Assert("x(3^k P)", vPt(&Q).same(three))
		two, three = vDbl(two, a4), vTpl(three, a3)
	}
}

// x(Q + sP): right-to-left on the textbook formulas
func vLadder3(p, q, pmq, a vProj, bits []uint8) vProj {
	// r0 = 2^i P, r1 = Q + (low bits) P, r2 = r0 - r1
	r0, r1, r2 := q, p, pmq
	for _, b := range bits {
		// r0 is the doubled point, see ScalarMul3Pt's documentation: R = Q + [s]P
		if b == 0 {
			r0, r2 = vDbl(r0, a), vAdd(r0, r2, r1)
		} else {
			r0, r1 = vDbl(r0, a), vAdd(r0, r1, r2)
		}
	}
	return r1
}

// one and two steps of the three-point ladder, for every scalar
func verifC26LadderPRIME() {
	verifrt.Mode("PRIME.fp2")
	for n := uint(1); n <= 2; n++ {
		for s := uint8(0); s < 1<<n; s++ {
			var c ProjectiveCurveParameters
			var P, Q, D ProjectivePoint
			verifrt.Havoc("c", &c)
			verifrt.Havoc("P", &P)
			verifrt.Havoc("Q", &Q)
			verifrt.Havoc("D", &D)
			c.C, P.Z, Q.Z, D.Z = params.OneFp2, params.OneFp2, params.OneFp2, params.OneFp2
			oc, oP, oQ, oD := c, P, Q, D
			scalar := []byte{s | verifrt.U8("high")<<n, verifrt.U8("next")}
			R := ScalarMul3Pt(&c, &P, &Q, &D, n, scalar)
			verifrt.Assert("x(Q + sP)", vPt(&R).same(vLadder3(vPt(&oP), vPt(&oQ), vPt(&oD), vCurve(&oc), []uint8{s & 1, s >> 1}[:n])))
			verifrt.Assert("operands unchanged", verifrt.And(verifrt.And(verifrt.Same(&c, &oc), verifrt.Same(&P, &oP)), verifrt.And(verifrt.Same(&Q, &oQ), verifrt.Same(&D, &oD))))
		}
	}
}

// projective inputs of any denominator, any curve denominator
func verifC26LadderProjectivePRIME() {
	verifrt.Mode("PRIME.fp2")
	for s := uint8(0); s < 2; s++ {
		var c ProjectiveCurveParameters
		var P, Q, D ProjectivePoint
		verifrt.Havoc("c", &c)
		verifrt.Havoc("P", &P)
		verifrt.Havoc("Q", &Q)
		verifrt.Havoc("D", &D)
		R := ScalarMul3Pt(&c, &P, &Q, &D, 1, []byte{s})
		verifrt.Assert("x(Q + sP)", vPt(&R).same(vLadder3(vPt(&P), vPt(&Q), vPt(&D), vCurve(&c), []uint8{s})))
	}
}

// every scalar of every length in use, any points and curve
func verifC26LadderAllPRIME() {
	verifrt.Mode("PRIME.fp2")
	for _, n := range []uint{1, 2, 3, 7, 8, 9, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, params.A.SecretBitLen, params.B.SecretBitLen} {
		var c ProjectiveCurveParameters
		var P, Q, D ProjectivePoint
		verifrt.Havoc("c", &c)
		verifrt.Havoc("P", &P)
		verifrt.Havoc("Q", &Q)
		verifrt.Havoc("D", &D)
		c.C, P.Z, Q.Z, D.Z = params.OneFp2, params.OneFp2, params.OneFp2, params.OneFp2
		verifrt.Ladder(&c)
		verifrt.LadderPoint(&P, 0, 1)
		verifrt.LadderPoint(&Q, 1, 0)
		verifrt.LadderPoint(&D, -1, 1)
		scalar := verifrt.Bytes("scalar", int((n+7)/8))
		R := ScalarMul3Pt(&c, &P, &Q, &D, n, scalar)
		verifrt.LadderIs(&R, scalar, n, 1)
	}
}

// scalars of full length, for known points and curve
func verifC26LadderLongPRIME() {
	verifrt.Mode("PRIME.fp2")
	P, Q, D, cc := vKnownPoint(3), vKnownPoint(5), vKnownPoint(7), vKnownPoint(11)
	c := ProjectiveCurveParameters{A: cc.X, C: cc.Z}
	for _, n := range []uint{7, 8, 9, 31, 64, params.A.SecretBitLen, params.B.SecretBitLen} {
		scalar := make([]byte, (n+7)/8)
		bits := make([]uint8, n)
		for i := range scalar {
			scalar[i] = byte(i*i*37 + i*11 + 0x9d)
		}
		for i := range bits {
			bits[i] = scalar[i/8] >> (uint(i) % 8) & 1
		}
		R := ScalarMul3Pt(&c, &P, &Q, &D, n, scalar)
		verifrt.Assert("x(Q + sP)", vPt(&R).same(vLadder3(vPt(&P), vPt(&Q), vPt(&D), vCurve(&c), bits)))
	}
}
