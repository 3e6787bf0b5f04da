package csidh

import "github.com/henrydcase/nobs/verifrt"

// proj is an x-coordinate X/Z.
type vProj struct{ x, z verifrt.F }

func vPt(p *point) vProj { return vProj{verifrt.FOf(&p.x), verifrt.FOf(&p.z)} }
func vCo(p *coeff) vProj { return vProj{verifrt.FOf(&p.a), verifrt.FOf(&p.c)} }
func (p vProj) same(q vProj) bool {
	return verifrt.And(verifrt.FEq(p.x.Mul(q.z), q.x.Mul(p.z)), !verifrt.And(verifrt.FZero(p.x), verifrt.FZero(p.z)))
}

// x(2P) = (x^2-1)^2 / (4x(x^2+Ax+1))
func vDbl(p, a vProj) vProj {
	x2, z2, xz := p.x.Sqr(), p.z.Sqr(), p.x.Mul(p.z)
	return vProj{x2.Sub(z2).Sqr().Mul(a.z), xz.Times(4).Mul(x2.Mul(a.z).Add(a.x.Mul(xz)).Add(z2.Mul(a.z)))}
}

// x(P+Q) = ((xP xQ - 1) / (xP - xQ))^2 / x(P-Q)
func vAdd(p, q, d vProj) vProj {
	n := p.x.Mul(q.x).Sub(p.z.Mul(q.z)).Sqr()
	m := p.x.Mul(q.z).Sub(p.z.Mul(q.x)).Sqr()
	return vProj{n.Mul(d.z), m.Mul(d.x)}
}

func vMulti(p, a vProj, k int, memo map[int]vProj) vProj {
	if k == 1 {
		return p
	}
	if r, ok := memo[k]; ok {
		return r
	}
	var r vProj
	if k%2 == 0 {
		r = vDbl(vMulti(p, a, k/2, memo), a)
	} else {
		r = vAdd(vMulti(p, a, k/2+1, memo), vMulti(p, a, k/2, memo), p)
	}
	memo[k] = r
	return r
}

func verifC26CsidhDbl() {
	verifrt.Mode("csidh.field")
	for overlap := 0; overlap < 2; overlap++ {
		var P, Q, A point
		verifrt.Havoc("P", &P)
		verifrt.Havoc("Q", &Q)
		verifrt.Havoc("A", &A)
		want := vDbl(vPt(&P), vPt(&A))
		oldP, oldA := P, A
		if overlap == 1 {
			xDbl(&P, &P, &A)
			Q = P
		} else {
			xDbl(&Q, &P, &A)
			verifrt.Assert("point operand unchanged", verifrt.Same(&P, &oldP))
		}
		verifrt.Assert("x(2P)", vPt(&Q).same(want))
		verifrt.Assert("curve unchanged", verifrt.Same(&A, &oldA))
	}
}

func verifC26CsidhAdd() {
	verifrt.Mode("csidh.field")
	var P, Q, D, R point
	verifrt.Havoc("P", &P)
	verifrt.Havoc("Q", &Q)
	verifrt.Havoc("D", &D)
	verifrt.Havoc("R", &R)
	oldP, oldQ, oldD := P, Q, D
	want := vAdd(vPt(&P), vPt(&Q), vPt(&D))
	xAdd(&R, &P, &Q, &D)
	verifrt.Assert("x(P+Q)", vPt(&R).same(want))
	verifrt.Assert("operands unchanged", verifrt.And(verifrt.Same(&P, &oldP), verifrt.And(verifrt.Same(&Q, &oldQ), verifrt.Same(&D, &oldD))))
}

// the ladder step, with separate results and with results in place of P and Q
func verifC26CsidhDblAdd() {
	verifrt.Mode("csidh.field")
	for overlap := 0; overlap < 2; overlap++ {
		var P, Q, D, PaP, PaQ point
		var a24 coeff
		verifrt.Havoc("P", &P)
		verifrt.Havoc("Q", &Q)
		verifrt.Havoc("D", &D)
		verifrt.Havoc("PaP", &PaP)
		verifrt.Havoc("PaQ", &PaQ)
		verifrt.Havoc("a24", &a24)
		// (A+2C : 4C) as (A : C)
		c := verifrt.FOf(&a24.c)
		a := verifrt.FOf(&a24.a).Times(4).Sub(c.Times(2))
		wantD := vDbl(vPt(&P), vProj{a, c})
		wantA := vAdd(vPt(&P), vPt(&Q), vPt(&D))
		oldP, oldQ, oldD, oldA := P, Q, D, a24
		if overlap == 1 {
			xDblAdd(&P, &Q, &P, &Q, &D, &a24)
			PaP, PaQ = P, Q
		} else {
			xDblAdd(&PaP, &PaQ, &P, &Q, &D, &a24)
			verifrt.Assert("operands unchanged", verifrt.And(verifrt.Same(&P, &oldP), verifrt.Same(&Q, &oldQ)))
		}
		verifrt.Assert("x(2P)", vPt(&PaP).same(wantD))
		verifrt.Assert("x(P+Q)", vPt(&PaQ).same(wantA))
		verifrt.Assert("difference and curve unchanged", verifrt.And(verifrt.Same(&D, &oldD), verifrt.Same(&a24, &oldA)))
	}
}

// multiples by every number up to 9 of an unknown point of an unknown curve
func verifC26CsidhMul() {
	verifrt.Mode("csidh.field")
	for overlap := 0; overlap < 2; overlap++ {
		for k := 1; k <= 9; k++ {
			var P, Q point
			var co coeff
			verifrt.Havoc("P", &P)
			verifrt.Havoc("Q", &Q)
			verifrt.Havoc("co", &co)
			P.z, co.c = one, one
			want := vMulti(vPt(&P), vCo(&co), k, map[int]vProj{})
			oldP, oldC := P, co
			kk := fp{uint64(k)}
			if overlap == 1 {
				xMul(&P, &P, &co, &kk)
				Q = P
			} else {
				xMul(&Q, &P, &co, &kk)
				verifrt.Assert("point operand unchanged", verifrt.Same(&P, &oldP))
			}
			verifrt.Assert("x(kP)", vPt(&Q).same(want))
			verifrt.Assert("curve and multiplier unchanged", verifrt.And(verifrt.Same(&co, &oldC), kk == fp{uint64(k)}))
		}
	}
}

// small multiples, with denominators and curve denominators of any value
func verifC26CsidhMulProjective() {
	verifrt.Mode("csidh.field")
	for k := 1; k <= 4; k++ {
		var P, Q point
		var co coeff
		verifrt.Havoc("P", &P)
		verifrt.Havoc("co", &co)
		want := vMulti(vPt(&P), vCo(&co), k, map[int]vProj{})
		kk := fp{uint64(k)}
		xMul(&Q, &P, &co, &kk)
		verifrt.Assert("x(kP)", vPt(&Q).same(want))
	}
}

// multipliers with bits in every word, for one known point and curve
func verifC26CsidhMulLong() {
	verifrt.Mode("csidh.field")
	for i := 0; i < 12; i++ {
		P := point{x: fp{3, 5, 7, 11, 13, 17, 19, 23}, z: fp{29, 31}}
		co := coeff{a: fp{37, 0, 0, 41, 0, 0, 43}, c: fp{47, 53}}
		k := fp{0x9e3779b97f4a7c15, 0xbf58476d1ce4e5b9, 0x94d049bb133111eb, 0x2545f4914f6cdd1d, 0xd1342543de82ef95, 0xaf251af3b0f025b5, 0xb564ef22ec7aece5, 0x7c8b9d6ee5f1c3a9}
		switch {
		case i < 8:
			// the highest bit is the lowest or highest one of word i
			for j := i + 1; j < 8; j++ {
				k[j] = 0
			}
			k[i] = 1
			if i%2 == 1 {
				k[i] = 1<<63 | 1
			}
		case i == 8:
			k = fp{0, 0, 0, 0, 0, 0, 0, 1 << 63}
		case i == 9:
			k = fp{0, 1}
		case i == 10:
			k = fp{^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0), ^uint64(0)}
		}
		// left-to-right ladder on the textbook formulas
		p, a := vPt(&P), vCo(&co)
		top := 511
		for k[top>>6]>>(uint(top)&63)&1 == 0 {
			top--
		}
		r0, r1 := p, vDbl(p, a)
		for b := top - 1; b >= 0; b-- {
			s := vAdd(r0, r1, p)
			if k[b>>6]>>(uint(b)&63)&1 == 0 {
				r0, r1 = vDbl(r0, a), s
			} else {
				r0, r1 = s, vDbl(r1, a)
			}
		}
		var Q point
		xMul(&Q, &P, &co, &k)
		verifrt.Assert("x(kP)", vPt(&Q).same(r0))
	}
}

// every multiplier, by the position of its highest bit, of any point of any curve
func vMulAll(from, to, step int) {
	verifrt.Mode("csidh.field")
	for top := from; top < to; top += step {
		for overlap := 0; overlap < 2; overlap++ {
			if top >= 80 && overlap != top&1 {
				continue
			}
			var P, Q point
			var co coeff
			verifrt.Havoc("P", &P)
			verifrt.Havoc("co", &co)
			P.z, co.c = one, one
			bits := verifrt.Bytes("k", 64)
			bits[top/8] = bits[top/8]&(1<<(uint(top)%8)-1) | 1<<(uint(top)%8)
			for i := top/8 + 1; i < 64; i++ {
				bits[i] = 0
			}
			var k fp
			for i := range bits {
				k[i/8] |= uint64(bits[i]) << (8 * (uint(i) % 8))
			}
			verifrt.Ladder(&co)
			verifrt.LadderPoint(&P, 1, 0)
			if overlap == 1 {
				xMul(&P, &P, &co, &k)
				Q = P
			} else {
				xMul(&Q, &P, &co, &k)
			}
			verifrt.LadderIs(&Q, bits, 512, 0)
		}
	}
}

func verifC26CsidhMulAll0() { vMulAll(0, 80, 1) }
func verifC26CsidhMulAll1() { vMulAll(80, 200, 7) }
func verifC26CsidhMulAll2() { vMulAll(191, 320, 16) }
func verifC26CsidhMulAll3() { vMulAll(319, 416, 16) }
func verifC26CsidhMulAll4() { vMulAll(416, 512, 19) }

// the others
func verifC26CsidhMulDeep0() { vMulAll(80, 180, 1) }
func verifC26CsidhMulDeep1() { vMulAll(180, 240, 1) }
func verifC26CsidhMulDeep2() { vMulAll(240, 290, 1) }
func verifC26CsidhMulDeep3() { vMulAll(290, 340, 1) }
func verifC26CsidhMulDeep4() { vMulAll(340, 380, 1) }
func verifC26CsidhMulDeep5() { vMulAll(380, 420, 1) }
func verifC26CsidhMulDeep6() { vMulAll(420, 460, 1) }
func verifC26CsidhMulDeep7() { vMulAll(460, 512, 1) }

// the image of x and the new curve for the kernel generated by K, after
// Meyer and Reith: x' = x prod ((x xi - 1)/(x - xi))^2 and, for twisted
// Edwards coefficients a = A+2C, d = A-2C, a' = a^l prod (xi+1)^8 and
// d' = d^l prod (xi-1)^8.
func vIso(p, a, k vProj, l int) (vProj, vProj) {
	memo := map[int]vProj{}
	img := p
	n, m := a.x.Add(a.z.Times(2)).Pow(l), a.x.Sub(a.z.Times(2)).Pow(l)
	pa, pd := verifrt.FInt(1), verifrt.FInt(1)
	for i := 1; i <= l/2; i++ {
		q := vMulti(k, a, i, memo)
		img.x = img.x.Mul(p.x.Mul(q.x).Sub(p.z.Mul(q.z)).Sqr())
		img.z = img.z.Mul(p.x.Mul(q.z).Sub(p.z.Mul(q.x)).Sqr())
		pa = pa.Mul(q.x.Add(q.z))
		pd = pd.Mul(q.x.Sub(q.z))
	}
	n, m = n.Mul(pa.Sqr().Sqr().Sqr()), m.Mul(pd.Sqr().Sqr().Sqr())
	return img, vProj{n.Add(m).Times(2), n.Sub(m)}
}

func vCheckIso(P, K *point, co *coeff, l int) {
	wantP, wantC := vIso(vPt(P), vCo(co), vPt(K), l)
	oldK := *K
	xIso(P, co, K, uint64(l))
	verifrt.Assert("image of the point", vPt(P).same(wantP))
	verifrt.Assert("image curve", vCo(co).same(wantC))
	verifrt.Assert("kernel unchanged", verifrt.Same(K, &oldK))
}

func verifC26CsidhIso3() {
	verifrt.Mode("csidh.field")
	var P, K point
	var co coeff
	verifrt.Havoc("P", &P)
	verifrt.Havoc("K", &K)
	verifrt.Havoc("co", &co)
	vCheckIso(&P, &K, &co, 3)
}

func verifC26CsidhIso5() {
	verifrt.Mode("csidh.field")
	var P, K point
	var co coeff
	verifrt.Havoc("P", &P)
	verifrt.Havoc("K", &K)
	verifrt.Havoc("co", &co)
	co.c, K.z = one, one
	vCheckIso(&P, &K, &co, 5)
}

// kernel and curve known, point unknown
func verifC26CsidhIsoEvery() {
	verifrt.Mode("csidh.field")
	for _, l := range []int{7, 11, 13, 17, 19, 23} {
		var P point
		verifrt.Havoc("P", &P)
		K := point{x: fp{3, 5, 7, 11, 13, 17, 19, 23}, z: fp{29, 31}}
		co := coeff{a: fp{37, 0, 0, 41, 0, 0, 43}, c: fp{47, 53}}
		vCheckIso(&P, &K, &co, l)
	}
}

// every prime of the parameter set, for known operands
func verifC26CsidhIsoAll() {
	verifrt.Mode("csidh.field")
	for _, l := range primes {
		P := point{x: fp{59, 5, 61, 67}, z: fp{71, 0, 73}}
		K := point{x: fp{3, 5, 7, 11, 13, 17, 19, 23}, z: fp{29, 31}}
		co := coeff{a: fp{37, 0, 0, 41, 0, 0, 43}, c: fp{47, 53}}
		vCheckIso(&P, &K, &co, int(l))
	}
}
