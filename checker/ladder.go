package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The scalar multiplication domain, on top of a field mode. A point is known as
// [a]Q + [b]P up to its sign, where a and b are polynomials in the bits of the
// scalar. A value is recognised by what it is: equal, as a ratio, to a known
// point, to the double of one or to the sum of two whose difference is known,
// after the textbook formulas. A choice between two points that depends on a
// bit is the point with the chosen coefficients. Points handed to a function
// and points that are swapped are replaced by unknowns of the same meaning.

// mpoly is a polynomial in Boolean variables (v² = v), by the sorted list of
// variables.
type mpoly map[string]*big.Int

func mconst(k int64) mpoly {
	if k == 0 {
		return mpoly{}
	}
	return mpoly{"": big.NewInt(k)}
}

func madd(p, q mpoly, k int64) mpoly {
	r := mpoly{}
	for m, c := range p {
		r[m] = c
	}
	for m, c := range q {
		v := new(big.Int).Mul(c, big.NewInt(k))
		if o := r[m]; o != nil {
			v.Add(v, o)
		}
		if v.Sign() == 0 {
			delete(r, m)
		} else {
			r[m] = v
		}
	}
	return r
}

func munion(a, b string) string {
	if a == "" || a == b {
		return b
	}
	if b == "" {
		return a
	}
	set := map[string]bool{}
	for _, s := range strings.Split(a+b, ";") {
		if s != "" {
			set[s] = true
		}
	}
	l := make([]string, 0, len(set))
	for s := range set {
		l = append(l, s)
	}
	sort.Strings(l)
	return strings.Join(l, ";") + ";"
}

// mBig: coefficients this size come from a scalar used in some other way than
// bit by bit.
type mBig struct{}

func mmul(p, q mpoly) mpoly {
	r := mpoly{}
	if len(p)*len(q) > 1<<16 {
		panic(mBig{})
	}
	for m, c := range p {
		for n, d := range q {
			k := munion(m, n)
			v := new(big.Int).Mul(c, d)
			if o := r[k]; o != nil {
				v.Add(v, o)
			}
			if v.Sign() == 0 {
				delete(r, k)
			} else {
				r[k] = v
			}
		}
	}
	return r
}

func meq(p, q mpoly) bool {
	if len(p) != len(q) {
		return false
	}
	for m, c := range p {
		if d := q[m]; d == nil || c.Cmp(d) != 0 {
			return false
		}
	}
	return true
}

// isOne: p = ±1, whatever the bits
func msign(p mpoly) bool { return len(p) <= 16 && meq(mmul(p, p), mconst(1)) }

type ldPoint struct {
	x, z    *felem
	a, b    mpoly
	support map[string]bool
}

type ldState struct {
	f       *field
	pkg     string
	typ     string
	off     int64 // of Z
	groups  int
	a24     *felem
	recent  []*ldPoint // latest last
	byID    map[[2]int]*ldPoint
	renamed map[string]*ldPoint
	locals  []Ptr
	fresh   int
}

const ldKeep = 12

func (l *ldState) add(p *ldPoint) *ldPoint {
	if len(p.b) > 0 && !meq(p.b, mconst(1)) && msign(p.b) {
		p.a, p.b = mmul(p.a, p.b), mconst(1)
	}
	p.support = map[string]bool{}
	l.f.support(p.x, p.support)
	l.f.support(p.z, p.support)
	l.recent = append(l.recent, p)
	l.byID[[2]int{p.x.id, p.z.id}] = p
	return p
}

func (l *ldState) minus(a, b *felem) *felem { return l.f.add(a, b, true) }
func (l *ldState) plus(a, b *felem) *felem  { return l.f.add(a, b, false) }
func (l *ldState) sqr(a *felem) *felem      { return l.f.mul(a, a) }

func (l *ldState) same(x, z, u, v *felem) bool {
	return x == u && z == v || l.f.equal(l.f.mul(x, v), l.f.mul(u, z))
}

func (l *ldState) dbl(p *ldPoint) (x, z *felem) {
	f := l.f
	s, t := l.sqr(l.plus(p.x, p.z)), l.sqr(l.minus(p.x, p.z))
	d := l.minus(s, t)
	return f.mul(s, t), f.mul(d, l.plus(t, f.mul(l.a24, d)))
}

func (l *ldState) dadd(p, q, d *ldPoint) (x, z *felem) {
	f := l.f
	s := l.minus(f.mul(p.x, q.x), f.mul(p.z, q.z))
	t := l.minus(f.mul(p.x, q.z), f.mul(p.z, q.x))
	return f.mul(d.z, l.sqr(s)), f.mul(d.x, l.sqr(t))
}

// sum of p and q whose difference, up to sign, is d
func (l *ldState) sum(p, q, d *ldPoint) (a, b mpoly, ok bool) {
	one := mconst(1)
	switch {
	case len(p.b) == 0 && len(q.b) == 0 && len(d.b) == 0:
		if len(d.a) > 16 {
			return nil, nil, false
		}
		sq := mmul(d.a, d.a)
		if m := madd(p.a, q.a, -1); len(m) <= 16 && meq(mmul(m, m), sq) {
			return madd(p.a, q.a, 1), mpoly{}, true
		}
		if m := madd(p.a, q.a, 1); len(m) <= 16 && meq(mmul(m, m), sq) {
			return madd(p.a, q.a, -1), mpoly{}, true
		}
	case len(p.b) == 0 && meq(q.b, one) && meq(d.b, one):
		// d = q + e p with e = ±1, then the sum is q - e p
		e := madd(d.a, q.a, -1)
		if len(e) > 16 || len(p.a) != 1 || p.a[""] == nil {
			return nil, nil, false
		}
		for m, c := range e {
			k, r := new(big.Int).QuoRem(c, p.a[""], new(big.Int))
			if r.Sign() != 0 {
				return nil, nil, false
			}
			e[m] = k
		}
		if msign(e) {
			return madd(q.a, mmul(e, p.a), -1), one, true
		}
	case meq(p.b, one) && len(q.b) == 0:
		return l.sum(q, p, d)
	}
	return nil, nil, false
}

// find identifies x : z.
func (l *ldState) find(x, z *felem) *ldPoint {
	if isZeroElem(z) {
		return nil
	}
	if p := l.byID[[2]int{x.id, z.id}]; p != nil {
		return p
	}
	set := map[string]bool{}
	l.f.support(x, set)
	l.f.support(z, set)
	var cand []*ldPoint
	for i := len(l.recent) - 1; i >= 0; i-- {
		if len(cand) >= ldKeep && i >= 3 {
			i = 3 // the base points remain
			continue
		}
		if p := l.recent[i]; subset(p.support, set) {
			cand = append(cand, p)
		}
	}
	for _, p := range cand {
		if l.same(x, z, p.x, p.z) {
			return l.add(&ldPoint{x: x, z: z, a: p.a, b: p.b})
		}
	}
	for _, p := range cand {
		if u, v := l.dbl(p); l.same(x, z, u, v) {
			return l.add(&ldPoint{x: x, z: z, a: madd(p.a, p.a, 1), b: madd(p.b, p.b, 1)})
		}
	}
	for i, p := range cand {
		for _, q := range cand[:i] {
			for _, d := range cand {
				a, b, ok := l.sum(p, q, d)
				if !ok {
					continue
				}
				if u, v := l.dadd(p, q, d); l.same(x, z, u, v) {
					return l.add(&ldPoint{x: x, z: z, a: a, b: b})
				}
			}
		}
	}
	return nil
}

func mvar(v *BVar) string { return fmt.Sprintf("%06d;", v.id) }

// mite is v ? h : l.
func mite(v *BVar, h, l mpoly) mpoly {
	d := madd(h, l, -1)
	if len(d) == 0 {
		return h
	}
	return madd(l, mmul(mpoly{mvar(v): big.NewInt(1)}, d), 1)
}

// mbool is the value, 0 or 1, of a decision.
func mbool(t *Term) mpoly {
	switch {
	case t == True:
		return mconst(1)
	case t == False:
		return mpoly{}
	}
	return mite(t.v, mbool(t.hi), mbool(t.lo))
}

// meaning of the words of X and Z, a choice between known points
func (l *ldState) meaning(ws []*Term) (a, b mpoly, unit, ok bool) {
	if v := topVar(ws...); v != nil {
		hi, lo := make([]*Term, len(ws)), make([]*Term, len(ws))
		for i, t := range ws {
			hi[i], lo[i] = cof(t, v)
		}
		ah, bh, u1, ok1 := l.meaning(hi)
		al, bl, u2, ok2 := l.meaning(lo)
		if !ok1 || !ok2 {
			return nil, nil, false, false
		}
		return mite(v, ah, al), mite(v, bh, bl), u1 && u2, true
	}
	n := len(ws) / 2
	x, z := l.f.load(ws[:n], single), l.f.load(ws[n:], single)
	p := l.find(x, z)
	if p == nil {
		return nil, nil, false, false
	}
	return p.a, p.b, z == l.f.elem(l.f.one(), l.f.one()), true
}

func (in *Interp) ldWords(st *State, x, z Val) ([]*Term, bool) {
	l := in.ladder
	a, ok1 := in.elemWords(st, x, l.groups, l.f.words, int64(l.f.stride))
	b, ok2 := in.elemWords(st, z, l.groups, l.f.words, int64(l.f.stride))
	return append(append([]*Term{}, a...), b...), ok1 && ok2
}

// ldRename gives the point x : z a new name of the same meaning.
func (in *Interp) ldRename(st *State, x, z Val) {
	l := in.ladder
	ws, ok := in.ldWords(st, x, z)
	if !ok {
		return
	}
	if topVar(ws...) == nil {
		n := len(ws) / 2
		if a, b := l.f.load(ws[:n], single), l.f.load(ws[n:], single); len(a.num) <= 1 && len(b.num) <= 1 {
			return
		}
	}
	defer in.ldGiveUp()
	key := wordsKey(ws)
	q := l.renamed[key]
	if q == nil {
		a, b, unit, ok := l.meaning(ws)
		if !ok {
			return
		}
		l.fresh++
		q = &ldPoint{x: l.f.atom(fmt.Sprintf("X%d", l.fresh)), a: a, b: b}
		if unit {
			q.z = l.f.elem(l.f.one(), l.f.one())
		} else {
			q.z = l.f.atom(fmt.Sprintf("Z%d", l.fresh))
		}
		l.add(q)
		l.renamed[key] = q
	}
	in.putWords(st, x, l.f.store(q.x, single), l.groups, int64(l.f.stride))
	in.putWords(st, z, l.f.store(q.z, single), l.groups, int64(l.f.stride))
}

func (in *Interp) ldGiveUp() {
	if r := recover(); r != nil {
		if _, ok := r.(mBig); !ok {
			panic(r)
		}
		in.csFail("the multiple depends on the scalar bit by bit", "a point was chosen by many bits of the scalar together")
	}
}

func (in *Interp) ladderEntry(st *State, fn *ssa.Function, as []Val) {
	l := in.ladder
	if fn.Pkg == nil || fn.Pkg.Pkg.Name() != l.pkg || len(fn.Params) != len(as) {
		return
	}
	for i, p := range fn.Params {
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok || !isNamed(pt.Elem(), l.typ) {
			continue
		}
		if q, ok := as[i].(Ptr); ok && q.o != nil {
			in.ldRename(st, as[i], fieldAt(as[i], l.off))
		}
	}
	if strings.HasPrefix(fn.Name(), "cswap") {
		for _, q := range l.locals {
			in.ldRename(st, q, fieldAt(q, l.off))
		}
	}
}

func init() {
	rt := func(s string) string { return rtPath + "." + s }
	def := func(n string, f func(in *Interp, st *State, a []Val) Val) {
		stdModels[rt(n)] = func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return f(in, st, a), st
		}
	}
	ptr := func(v Val) Val {
		if i, ok := v.(Iface); ok {
			return i.v
		}
		return v
	}
	pair := func(in *Interp, st *State, v Val) (x, z *felem) {
		l := in.ladder
		v = ptr(v)
		ws, ok := in.ldWords(st, v, fieldAt(v, l.off))
		if !ok || topVar(ws...) != nil {
			in.imprecise("operand of the ladder")
			panic(csStop{})
		}
		n := len(ws) / 2
		return l.f.load(ws[:n], single), l.f.load(ws[n:], single)
	}
	// Ladder(curve): from now on scalar multiplication on that curve (A : C).
	def("Ladder", func(in *Interp, st *State, a []Val) Val {
		f := in.curField()
		l := &ldState{f: f, byID: map[[2]int]*ldPoint{}, renamed: map[string]*ldPoint{}}
		if l.pkg, l.typ, l.off, l.groups = f.name[:4], "ProjectivePoint", ptOff, 2; strings.HasPrefix(f.name, "csidh") {
			l.pkg, l.typ, l.off, l.groups = "csidh", "point", 64, 1
		}
		in.ladder = l
		A, C := pair(in, st, a[0])
		two := l.plus(C, C)
		l.a24 = f.mul(l.plus(A, two), f.inv(l.plus(two, two)))
		return nil
	})
	// LadderPoint(p, q, b): p is [q]Q + [b]P.
	def("LadderPoint", func(in *Interp, st *State, a []Val) Val {
		x, z := pair(in, st, a[0])
		q, _ := constArg(a[1])
		b, _ := constArg(a[2])
		in.ladder.add(&ldPoint{x: x, z: z, a: mconst(int64(q)), b: mconst(int64(b))})
		return nil
	})
	// LadderIs(r, scalar, n, b): r is [s]Q + [b]P, s the first n bits of the scalar.
	def("LadderIs", func(in *Interp, st *State, a []Val) Val {
		l := in.ladder
		defer in.ldGiveUp()
		s, ok := a[1].(Slice)
		n, _ := constArg(a[2])
		b, _ := constArg(a[3])
		want := mpoly{}
		for i := uint64(0); ok && i < uint64(n); i++ {
			t, isT := in.load(st, Ptr{s.o, Add(s.off, Const(64, i/8))}, types.Typ[types.Byte]).(*Term)
			if !isT {
				ok = false
				break
			}
			bit := mbool(Bit(t, uint(i%8)))
			for m, c := range bit {
				bit[m] = new(big.Int).Lsh(c, uint(i))
			}
			want = madd(want, bit, 1)
		}
		v := ptr(a[0])
		ws, ok2 := in.ldWords(st, v, fieldAt(v, l.off))
		if !ok || !ok2 {
			in.imprecise("LadderIs")
			panic(csStop{})
		}
		ga, gb, _, ok := l.meaning(ws)
		if !ok && l.f.tooBig {
			in.imprecise("polynomial too large in the scalar multiplication")
			panic(csStop{})
		}
		in.csCheck("the result is a sum of multiples of the base points", ok, "neither a known point nor the double of one nor the sum of two with known difference")
		in.csCheck("it is the multiple by the scalar", meq(ga, want) && meq(gb, mconst(int64(b))), fmt.Sprintf("coefficient differs: %d terms, want %d", len(ga), len(want)))
		return nil
	})
}
