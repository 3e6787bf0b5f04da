package main

// Value terms of the abstract interpreter: hash-consed, canonical.
//
//   KConst  constant bit pattern of width w
//   KITE    gated value: decision node over an ordered boolean variable (MTBDD)
//   KBV     bitwise value: XOR of monomials (mask & AND of shifted atoms)
//   KLin    linear value: sum of coeff*atom + c  (mod 2^w)
//   KSym    symbol
//   KApp    uninterpreted operation
//
// Two expressions that denote the same value by bitwise algebra, packing,
// masking, selection or linear arithmetic get the same *Term.

import (
	"encoding/binary"
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Kind uint8

const (
	KConst Kind = iota
	KITE
	KBV
	KLin
	KSym
	KApp
)

type factor struct {
	t  *Term
	sh int8
}
type mono struct {
	fs   []factor
	mask uint64
	key  string
}
type lterm struct {
	t *Term
	k int64
}

type Term struct {
	id       int32
	k        Kind
	w        uint8
	c        uint64
	v        *BVar
	hi, lo   *Term
	ms       []mono
	lin      []lterm
	name     string
	args     []*Term
	sz       int32
	num      bool // Sym used as a number (length): shifts stay linear
	hasR     bool
	rlo, rhi int64
	supp     *suppSet
}

// BVar is a boolean variable; vars of one group are the thresholds L >= c of one
// linear form, strongest (largest c) first.
type BVar struct {
	grp *vgroup
	c   int64
	id  int32
}
type vgroup struct {
	ord  int
	t    *Term // meaning: for ge groups the linear form, otherwise the 1-bit term
	isGe bool
	byt  *Term // the byte the form stands for
	vars map[int64]*BVar
}

func (a *BVar) less(b *BVar) bool {
	if a.grp != b.grp {
		return a.grp.ord < b.grp.ord
	}
	return a.c > b.c
}

var (
	tab      = map[string]*Term{}
	nextID   int32
	orParts  = map[*Term][2]*Term{} // operands of disjunctions
	geGroups = map[*Term]*vgroup{}
	opGroups = map[*Term]*vgroup{}
	nextGrp  int
	nextVar  int32
	kbuf     []byte
)

func full(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return 1<<w - 1
}

func cons(key []byte, mk func() *Term) *Term {
	if t, ok := tab[string(key)]; ok {
		return t
	}
	if nextID&0xfff == 0 && overBudget.Load() {
		panic("memory budget exceeded")
	}
	t := mk()
	nextID++
	t.id = nextID
	tab[string(key)] = t
	return t
}

func put32(b []byte, x int32) []byte  { return binary.LittleEndian.AppendUint32(b, uint32(x)) }
func put64(b []byte, x uint64) []byte { return binary.LittleEndian.AppendUint64(b, x) }
func key0(k Kind, w uint8) []byte     { return append(kbuf[:0], byte(k), w) }
func Const(w uint8, c uint64) *Term {
	c &= full(w)
	return cons(put64(key0(KConst, w), c), func() *Term { return &Term{k: KConst, w: w, c: c} })
}

var True, False *Term

func init() {
	kbuf = make([]byte, 0, 1<<12)
	memo = nil
	resetTerms()
}

// resetTerms forgets all terms (between harnesses).
func resetTerms() {
	tab = map[string]*Term{}
	memo = map[memoKey]*Term{}
	orParts = map[*Term][2]*Term{}
	abbrev = nil
	wordWork = 0
	geGroups = map[*Term]*vgroup{}
	opGroups = map[*Term]*vgroup{}
	nextID, nextGrp, nextVar = 0, 0, 0
	False = Const(1, 0)
	True = Const(1, 1)
}

func Sym(w uint8, name string) *Term {
	t := cons(append(key0(KSym, w), name...), func() *Term { return &Term{k: KSym, w: w, name: name} })
	if w == 1 {
		return varNode(opaqueVar(t))
	}
	return t
}

// NumSym is a number-like symbol with a known range.
func NumSym(w uint8, name string, lo, hi int64) *Term {
	t := cons(append(key0(KSym, w), name...), func() *Term {
		return &Term{k: KSym, w: w, name: name, num: true, hasR: true, rlo: lo, rhi: hi}
	})
	return t
}

func App(w uint8, op string, args ...*Term) *Term {
	k := key0(KApp, w)
	k = append(k, op...)
	k = append(k, 0)
	for _, a := range args {
		k = put32(k, a.id)
	}
	t := cons(k, func() *Term { return &Term{k: KApp, w: w, name: op, args: append([]*Term(nil), args...)} })
	if w == 1 {
		return varNode(opaqueVar(t))
	}
	return t
}

func AppR(w uint8, lo, hi int64, op string, args ...*Term) *Term {
	t := App(w, op, args...)
	t.hasR, t.rlo, t.rhi = true, lo, hi
	return t
}

func opaqueVar(t *Term) *BVar {
	g := opGroups[t]
	if g == nil {
		g = &vgroup{ord: nextGrp, t: t}
		nextGrp++
		nextVar++
		g.vars = map[int64]*BVar{0: {grp: g, id: nextVar}}
		opGroups[t] = g
	}
	return g.vars[0]
}
func geVar(l *Term, c int64) *BVar {
	g := geGroups[l]
	if g == nil {
		g = &vgroup{ord: nextGrp, t: l, isGe: true, vars: map[int64]*BVar{}}
		if y, c := byteOf(l); y != nil && c == 0 && y.k != KConst && pm(y) == 0xff {
			g.byt = y
		}
		nextGrp++
		geGroups[l] = g
	}
	v := g.vars[c]
	if v == nil {
		nextVar++
		v = &BVar{grp: g, c: c, id: nextVar}
		g.vars[c] = v
	}
	return v
}
func varNode(v *BVar) *Term { return mkITE(v, True, False) }

func sizeOf(t *Term) int32 {
	if t.k == KITE {
		return t.sz
	}
	return 1
}

func mkITE(v *BVar, hi, lo *Term) *Term {
	if v.grp.isGe {
		for hi.k == KITE && hi.v.grp == v.grp {
			hi = hi.hi
		}
		l := lo
		for l.k == KITE && l.v.grp == v.grp {
			l = l.hi
		}
		if l == hi {
			return lo
		}
	}
	if hi == lo {
		return hi
	}
	if x := v.grp.byt; x != nil && hi.w > 1 {
		fuel := 64
		if v.c == 255 && sameWhen(hi, lo, x, 255, &fuel) {
			return lo
		}
		if v.c == 1 && sameWhen(lo, hi, x, 0, &fuel) {
			return hi
		}
		if lo.k == KITE && lo.v.grp == v.grp && lo.v.c == v.c-1 { // lo.hi is x == v.c-1
			k := uint64(v.c - 1)
			if sameWhen(lo.hi, lo.lo, x, k, &fuel) {
				return mkITE(v, hi, lo.lo)
			}
			if sameWhen(lo.hi, hi, x, k, &fuel) {
				return mkITE(lo.v, hi, lo.lo)
			}
		}
	}
	if hi.w != lo.w {
		panic(fmt.Sprintf("mkITE width %d %d", hi.w, lo.w))
	}
	k := key0(KITE, hi.w)
	k = put32(k, v.id)
	k = put32(k, hi.id)
	k = put32(k, lo.id)
	return cons(k, func() *Term {
		s := sizeOf(hi) + sizeOf(lo) + 1
		if s > 1<<28 || s < 0 {
			s = 1 << 28
		}
		return &Term{k: KITE, w: hi.w, v: v, hi: hi, lo: lo, sz: s}
	})
}

// ---------- lifting over gates

type memoKey struct {
	op      uint32
	a, b, c int32
}

var memo = map[memoKey]*Term{}

func cof(t *Term, v *BVar) (hi, lo *Term) {
	if t.k != KITE {
		return t, t
	}
	if t.v == v {
		return t.hi, t.lo
	}
	if t.v.grp == v.grp && t.v.c < v.c { // weaker threshold below v: true when v is
		h := t
		for h.k == KITE && h.v.grp == v.grp {
			h = h.hi
		}
		return h, t
	}
	return t, t
}

func topVar(ts ...*Term) *BVar {
	var v *BVar
	for _, t := range ts {
		if t.k == KITE && (v == nil || t.v.less(v)) {
			v = t.v
		}
	}
	return v
}

const (
	opXor = iota + 1
	opAnd
	opAdd
	opMul
	opEq
	opUlt
	opSlt
	opIte
	opRestrict
	opLift1Base = 1000
)

func lift2(op uint32, a, b *Term, leaf func(a, b *Term) *Term) *Term {
	if a.k != KITE && b.k != KITE {
		return leaf(a, b)
	}
	mk := memoKey{op, a.id, b.id, 0}
	if r, ok := memo[mk]; ok {
		return r
	}
	v := topVar(a, b)
	ah, al := cof(a, v)
	bh, bl := cof(b, v)
	r := ordITE(v, lift2(op, ah, bh, leaf), lift2(op, al, bl, leaf))
	memo[mk] = r
	return r
}

// ordITE is mkITE for branches that may test variables above v.
func ordITE(v *BVar, hi, lo *Term) *Term {
	if hi.k == KITE && !v.less(hi.v) || lo.k == KITE && !v.less(lo.v) {
		return Ite(varNode(v), hi, lo)
	}
	return mkITE(v, hi, lo)
}

func lift1(op uint32, a *Term, leaf func(a *Term) *Term) *Term {
	if a.k != KITE {
		return leaf(a)
	}
	mk := memoKey{op, a.id, 0, 1}
	if op != 0 {
		if r, ok := memo[mk]; ok {
			return r
		}
	}
	r := ordITE(a.v, lift1(op, a.hi, leaf), lift1(op, a.lo, leaf))
	if op != 0 {
		memo[mk] = r
	}
	return r
}

// mapLeaves applies leaf to every leaf (fresh memo per call).
func mapLeaves(a *Term, leaf func(a *Term) *Term) *Term {
	m := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t.k != KITE {
			return leaf(t)
		}
		if r, ok := m[t]; ok {
			return r
		}
		r := Ite(varNode(t.v), rec(t.hi), rec(t.lo))
		m[t] = r
		return r
	}
	return rec(a)
}

func leavesOf(t *Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.k == KITE {
			rec(t.hi)
			rec(t.lo)
			return
		}
		out = append(out, t)
	}
	rec(t)
	return out
}

// Ite selects by a boolean term.
func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a == True && b == False {
		return c
	}
	mk := memoKey{opIte, c.id, a.id, b.id}
	if r, ok := memo[mk]; ok {
		return r
	}
	v := topVar(c, a, b)
	ch, cl := cof(c, v)
	ah, al := cof(a, v)
	bh, bl := cof(b, v)
	r := mkITE(v, Ite(ch, ah, bh), Ite(cl, al, bl))
	memo[mk] = r
	return r
}

func Not(a *Term) *Term    { return Ite(a, False, True) }
func And(a, b *Term) *Term { return Ite(a, b, False) }
func Or(a, b *Term) *Term  { return Ite(a, True, b) }

// Restrict simplifies t under the assumption c (generalised cofactor).
func Restrict(t, c *Term) *Term {
	if c == True || c == False || t.k != KITE {
		return t
	}
	if t == c {
		return True
	}
	mk := memoKey{opRestrict, t.id, c.id, 0}
	if r, ok := memo[mk]; ok {
		return r
	}
	var r *Term
	v := topVar(t, c)
	ch, cl := cof(c, v)
	th, tl := cof(t, v)
	switch {
	case ch == False:
		r = Restrict(tl, cl)
	case cl == False:
		r = Restrict(th, ch)
	case t.v != v && !(th != tl):
		r = Restrict(t, Or(ch, cl))
	default:
		r = mkITE(v, Restrict(th, ch), Restrict(tl, cl))
	}
	memo[mk] = r
	return r
}

// EqUnder reports whether a and b are the same value whenever pc holds.
func EqUnder(pc, a, b *Term) bool {
	if a == b {
		return true
	}
	z := Const(a.w, 0)
	return Ite(pc, a, z) == Ite(pc, b, z)
}

// ---------- bitwise normal form

func isBVAtom(t *Term) bool { return t.k == KSym || t.k == KApp || t.k == KLin }

func monos(t *Term) []mono {
	switch t.k {
	case KConst:
		if t.c == 0 {
			return nil
		}
		return []mono{{mask: t.c}}
	case KBV:
		return t.ms
	}
	fs := []factor{{t, 0}}
	return []mono{{fs: fs, mask: full(t.w), key: mkey(fs)}}
}

func mkey(fs []factor) string {
	b := make([]byte, 0, len(fs)*5)
	for _, f := range fs {
		b = put32(b, f.t.id)
		b = append(b, byte(f.sh))
	}
	return string(b)
}

// pm is a superset of the bits that can be one.
func pm(t *Term) uint64 {
	switch t.k {
	case KConst:
		return t.c
	case KBV:
		var m uint64
		for _, x := range t.ms {
			m |= x.mask
		}
		return m
	case KITE:
		return pm(t.hi) | pm(t.lo)
	}
	if t.hasR && t.rlo >= 0 {
		if t.rhi == 0 {
			return 0
		}
		return full(uint8(64 - bits.LeadingZeros64(uint64(t.rhi))))
	}
	return full(t.w)
}

func mkBV(w uint8, ms []mono) *Term {
	if len(ms) == 0 {
		return Const(w, 0)
	}
	if len(ms) == 1 {
		m := ms[0]
		if len(m.fs) == 0 {
			return Const(w, m.mask)
		}
		if len(m.fs) == 1 && m.fs[0].sh == 0 && m.fs[0].t.w == w && m.mask == full(w) {
			return m.fs[0].t
		}
	}
	if abbrev != nil {
		c, rest := uint64(0), ms
		if len(ms[0].fs) == 0 {
			c, rest = ms[0].mask, ms[1:]
		}
		if a, ok := abbrev[mkBV0(w, rest)]; ok {
			return Xor(a, Const(w, c))
		}
	}
	if wordMode {
		if wordWork += len(ms); wordWork > wordWorkMax && len(ms) > 64 {
			// too large to expand: named, so that what follows stays small
			c, rest := uint64(0), ms
			if len(ms[0].fs) == 0 {
				c, rest = ms[0].mask, ms[1:]
			}
			return Xor(nameWord(mkBV0(w, rest)), Const(w, c))
		}
	}
	return mkBV0(w, ms)
}

func mkBV0(w uint8, ms []mono) *Term {
	if len(ms) == 1 && len(ms[0].fs) == 1 && ms[0].fs[0].sh == 0 && ms[0].fs[0].t.w == w && ms[0].mask == full(w) {
		return ms[0].fs[0].t
	}
	k := key0(KBV, w)
	for _, m := range ms {
		k = put64(k, m.mask)
		k = append(k, byte(len(m.fs)))
		k = append(k, m.key...)
	}
	return cons(k, func() *Term { return &Term{k: KBV, w: w, ms: ms} })
}

func xorMonos(a, b []mono) []mono {
	out := make([]mono, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i].key < b[j].key:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j].key < a[i].key:
			out = append(out, b[j])
			j++
		default:
			m := a[i].mask ^ b[j].mask
			if m != 0 {
				out = append(out, mono{a[i].fs, m, a[i].key})
			}
			i++
			j++
		}
	}
	return out
}

func normMonos(ms []mono) []mono {
	sort.Slice(ms, func(i, j int) bool { return ms[i].key < ms[j].key })
	out := ms[:0]
	for _, m := range ms {
		if m.mask == 0 {
			continue
		}
		if n := len(out); n > 0 && out[n-1].key == m.key {
			out[n-1].mask ^= m.mask
			if out[n-1].mask == 0 {
				out = out[:n-1]
			}
			continue
		}
		out = append(out, m)
	}
	return out
}

const bvLimit = 48

// wordWork counts the monomials of the words built in mode "prim"; a computation
// that needs more than wordWorkMax is not the specified one in any form this
// analysis can compare, and its larger words are named as they are built.
var wordWork int

const wordWorkMax = 40e6

var wordMode bool // set while an entry point in mode "prim" is analysed: shifts are never arithmetic

func Xor(a, b *Term) *Term {
	if a.w != b.w {
		panic("xor width")
	}
	if a.w == 1 {
		return Ite(a, Not(b), b)
	}
	return lift2(opXor, a, b, func(a, b *Term) *Term {
		if a == b {
			return Const(a.w, 0)
		}
		return mkBV(a.w, xorMonos(monos(a), monos(b)))
	})
}

func BAnd(a, b *Term) *Term {
	if a.w != b.w {
		panic("and width")
	}
	if a.w == 1 {
		return And(a, b)
	}
	if a.k == KConst && a.c == 0 || b.k == KConst && b.c == full(b.w) {
		return a
	}
	if b.k == KConst && b.c == 0 || a.k == KConst && a.c == full(a.w) {
		return b
	}
	if numMode {
		x := a
		a = maskCases(a, b)
		b = maskCases(b, x)
	}
	return lift2(opAnd, a, b, func(a, b *Term) *Term {
		if a == b {
			return a
		}
		// number & (2^k-1): remainder
		for s := 0; s < 2; s++ {
			if b.k == KConst && isNum(a) && b.c&(b.c+1) == 0 {
				if r := modConst(a, int64(b.c)+1); r != nil {
					return r
				}
			}
			a, b = b, a
		}
		ma, mb := monos(a), monos(b)
		if len(ma)*len(mb) > bvLimit*4 && (!wordMode || len(ma)*len(mb) > 20000) {
			if a.id > b.id {
				a, b = b, a
			}
			return App(a.w, "and", a, b)
		}
		var out []mono
		for _, x := range ma {
			for _, y := range mb {
				m := x.mask & y.mask
				if m == 0 {
					continue
				}
				out = append(out, mulMono(x, y, m))
			}
		}
		return mkBV(a.w, normMonos(out))
	})
}

// maskCases splits a number that depends on a single bit into its two values.
func maskCases(a, b *Term) *Term {
	if a.k == KLin && len(a.lin) == 1 && pm(a.lin[0].t) == 1 {
		return Ite(toBool(a.lin[0].t), Const(a.w, a.c+uint64(a.lin[0].k)), Const(a.w, a.c))
	}
	if a.k == KApp && a.w == 64 && pm(a) == 1 && b.k != KConst {
		return Ite(toBool(a), Const(a.w, 1), Const(a.w, 0))
	}
	return a
}

func mulMono(x, y mono, m uint64) mono {
	if len(x.fs) == 0 {
		return mono{y.fs, m, y.key}
	}
	if len(y.fs) == 0 {
		return mono{x.fs, m, x.key}
	}
	fs := make([]factor, 0, len(x.fs)+len(y.fs))
	fs = append(fs, x.fs...)
	for _, f := range y.fs {
		dup := false
		for _, g := range fs {
			if g == f {
				dup = true
			}
		}
		if !dup {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool {
		if fs[i].t.id != fs[j].t.id {
			return fs[i].t.id < fs[j].t.id
		}
		return fs[i].sh < fs[j].sh
	})
	return mono{fs, m, mkey(fs)}
}

func BOr(a, b *Term) *Term {
	if a.w == 1 {
		return Or(a, b)
	}
	if a.k == KITE || b.k == KITE {
		return Xor(Xor(a, b), BAnd(a, b))
	}
	// x | -x: ones from the lowest one bit of x upwards
	if a.k == KLin || b.k == KLin {
		for s := 0; s < 2; s++ {
			if b.k == KLin && Neg(b) == a {
				return App(a.w, "orneg", a)
			}
			a, b = b, a
		}
	}
	r := Xor(Xor(a, b), BAnd(a, b))
	if r != a && r != b && r.k != KConst {
		if _, ok := orParts[r]; !ok {
			orParts[r] = [2]*Term{a, b}
		}
	}
	return r
}

func BNot(a *Term) *Term {
	if a.w == 1 {
		return Not(a)
	}
	if a.k == KLin {
		return Add(Neg(a), Const(a.w, ^uint64(0)))
	}
	return Xor(a, Const(a.w, ^uint64(0)))
}

func shiftMonos(ms []mono, k int, w uint8) []mono {
	var out []mono
	for _, m := range ms {
		var mask uint64
		if k >= 0 {
			if k < 64 {
				mask = m.mask << uint(k)
			}
		} else if -k < 64 {
			mask = m.mask >> uint(-k)
		}
		mask &= full(w)
		if mask == 0 {
			continue
		}
		if len(m.fs) == 0 {
			out = append(out, mono{mask: mask})
			continue
		}
		fs := make([]factor, len(m.fs))
		for i, f := range m.fs {
			fs[i] = factor{f.t, f.sh + int8(k)}
		}
		out = append(out, mono{fs, mask, mkey(fs)})
	}
	return normMonos(out)
}

func isNum(t *Term) bool {
	return t.k == KLin || t.num
}

func Shl(a *Term, k uint) *Term {
	if k == 0 {
		return a
	}
	if k >= uint(a.w) {
		return Const(a.w, 0)
	}
	return lift1(opLift1Base+uint32(k), a, func(a *Term) *Term {
		if isNum(a) && !numMode && !wordMode {
			return MulConst(a, 1<<k)
		}
		return mkBV(a.w, shiftMonos(monos(a), int(k), a.w))
	})
}
func Shr(a *Term, k uint) *Term {
	if k == 0 {
		return a
	}
	if k >= uint(a.w) {
		return Const(a.w, 0)
	}
	return lift1(opLift1Base+100+uint32(k), a, func(a *Term) *Term {
		if isNum(a) {
			if r := divConst(a, 1<<k); r != nil {
				return r
			}
		}
		if a.k == KApp && a.name == "orneg" && k == uint(a.w)-1 {
			return Ite(toBool(a.args[0]), Const(a.w, 1), Const(a.w, 0))
		}
		return mkBV(a.w, shiftMonos(monos(a), -int(k), a.w))
	})
}
func Ashr(a *Term, k uint) *Term {
	if k == 0 {
		return a
	}
	if k >= uint(a.w) {
		k = uint(a.w) - 1
	}
	return lift1(opLift1Base+200+uint32(k), a, func(a *Term) *Term {
		if a.k == KConst {
			return Const(a.w, uint64(sgn(a)>>k))
		}
		if lo, hi, ok := Range(a); ok && lo >= 0 && hi >= 0 {
			return Shr(a, k)
		}
		if pm(a)>>(a.w-1) == 0 {
			return Shr(a, k)
		}
		if pm(a) == 1<<(a.w-1) { // only the sign bit: broadcast
			return Ite(toBool(a), Const(a.w, uint64(int64(-1)<<(uint(a.w)-1-k))), Const(a.w, 0))
		}
		// sign-extend: split into sign bit broadcast and the rest
		sb := toBool(BAnd(a, Const(a.w, 1<<(a.w-1))))
		top := Const(a.w, ^(full(a.w) >> k))
		return Xor(Shr(a, k), Ite(sb, top, Const(a.w, 0)))
	})
}

func sgn(t *Term) int64 { return int64(t.c<<(64-t.w)) >> (64 - t.w) }

func Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w == 1 {
		return Ite(a, Const(w, 1), Const(w, 0))
	}
	return lift1(opLift1Base+300+uint32(w), a, func(a *Term) *Term { return mkBV(w, monos(a)) })
}
func Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if w == 1 {
		return toBool(BAnd(a, Const(a.w, 1)))
	}
	return lift1(opLift1Base+400+uint32(w), a, func(a *Term) *Term {
		if a.k == KLin {
			r := Const(w, a.c)
			for _, l := range a.lin {
				r = Add(r, MulConst(Trunc(l.t, w), l.k))
			}
			return r
		}
		if isNum(a) {
			if lo, hi, ok := Range(a); ok && lo >= 0 && hi <= int64(full(w)) {
				// small number: keep bits
			}
		}
		ms := append([]mono(nil), monos(a)...)
		for i := range ms {
			ms[i].mask &= full(w)
		}
		return mkBV(w, normMonos(ms))
	})
}
func Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	return lift1(opLift1Base+500+uint32(w), a, func(a *Term) *Term {
		if a.k == KConst {
			return Const(w, uint64(sgn(a)))
		}
		if pm(a)>>(a.w-1) == 0 {
			return Zext(a, w)
		}
		h := int64(1) << (a.w - 1)
		return AppR(w, -h, h-1, "sext", a)
	})
}

// Bit extracts bit j as a boolean.
func Bit(a *Term, j uint) *Term { return toBool(BAnd(a, Const(a.w, 1<<j))) }

// toBool is t != 0.
func toBool(a *Term) *Term {
	if a.w == 1 {
		return a
	}
	return lift1(opLift1Base+600, a, func(a *Term) *Term {
		if a.k == KConst {
			if a.c != 0 {
				return True
			}
			return False
		}
		if isNum(a) {
			if _, _, ok := Range(a); ok {
				return Not(eqNum(a))
			}
		}
		if q, ok := orParts[a]; ok {
			return Or(toBool(q[0]), toBool(q[1]))
		}
		p := pm(a)
		if p != 0 && p&(p-1) == 0 && (a.k == KBV || isBVAtom(a)) {
			j := uint(bits.TrailingZeros64(p))
			r := False
			for _, m := range monos(a) {
				x := True
				for _, f := range m.fs {
					x = And(x, bitVar(f.t, int(j)-int(f.sh)))
				}
				r = Ite(r, Not(x), x)
			}
			return r
		}
		// a constant one bit that nothing else can clear
		if a.k == KBV {
			var oth, cst uint64
			for _, m := range a.ms {
				if len(m.fs) == 0 {
					cst = m.mask
				} else {
					oth |= m.mask
				}
			}
			if cst&^oth != 0 {
				return True
			}
		}
		if r := byteNZ(a); r != nil {
			return r
		}
		if a.k == KLin && len(a.lin) == 1 && (a.lin[0].k == 1 || a.lin[0].k == -1) {
			// x + c != 0 as x ^ -c != 0
			c := Const(a.w, a.c)
			if a.lin[0].k == 1 {
				c = Neg(c)
			}
			return toBool(Xor(a.lin[0].t, c))
		}
		if a.k == KLin && a.c == 0 && len(a.lin) == 2 && a.lin[0].k == -a.lin[1].k && (a.lin[0].k == 1 || a.lin[0].k == -1) {
			return toBool(Xor(a.lin[0].t, a.lin[1].t))
		}
		z := App(8, "nz", a) // 8 bits wide only to have an ordinary term to name it
		return varNode(opaqueVar(z))
	})
}

func bitVar(t *Term, j int) *Term {
	return varNode(opaqueVar(App(8, "bit", t, Const(8, uint64(j)))))
}

// ---------- bytes

// byteOf gives the byte a term of at most eight significant bits stands for,
// without its constant part: t == y ^ c.
func byteOf(t *Term) (y *Term, c uint64) {
	if t.k == KLin {
		if t.w != 8 {
			return nil, 0
		}
		return t, 0
	}
	if t.k == KConst || t.k == KITE || t.num || t.hasR && t.w != 8 {
		return nil, 0
	}
	if pm(t)>>8 != 0 {
		return nil, 0
	}
	var ms []mono
	for _, m := range monos(t) {
		if len(m.fs) == 0 {
			c = m.mask
			continue
		}
		ms = append(ms, m)
	}
	return mkBV(8, ms), c
}

func isByteCat(t *Term) bool {
	if t.k != KBV {
		return false
	}
	for _, m := range t.ms {
		for _, f := range m.fs {
			if f.t.w != 8 || f.sh%8 != 0 || f.sh < 0 {
				return false
			}
		}
	}
	return true
}

// byteNZ is t != 0 for bytes and concatenations of bytes.
func byteNZ(t *Term) *Term {
	if t.k == KLin {
		return nil
	}
	if y, c := byteOf(t); y != nil && y.k != KConst {
		return Not(byteEq(y, c))
	}
	if !isByteCat(t) {
		return nil
	}
	r := False
	for i := uint(0); i < uint(t.w); i += 8 {
		b := Trunc(Shr(t, i), 8)
		r = Or(r, toBool(b))
	}
	return r
}

func byteGE(x *Term, k int64) *Term {
	if k <= 0 {
		return True
	}
	if k > 255 {
		return False
	}
	y, c := byteOf(x)
	if y == nil || c != 0 {
		return geTerm(mkBV(64, monos(x)), k)
	}
	return geTerm(Zext(y, 64), k)
}

// byteEq is y == c.
func byteEq(y *Term, c uint64) *Term {
	if y.k == KLin && len(y.lin) == 1 && (y.lin[0].k == 1 || y.lin[0].k == -1) {
		k := c - y.c
		if y.lin[0].k == -1 {
			k = -k
		}
		return Not(toBool(Xor(y.lin[0].t, Const(8, k))))
	}
	z := Zext(y, 64)
	return And(geTerm(z, int64(c)), Not(geTerm(z, int64(c)+1)))
}

// substByte is t with the byte x replaced by the constant c (top level only).
func substByte(t, x *Term, c uint64) *Term {
	switch t.k {
	case KLin:
		if t.w != 8 {
			return t
		}
		for _, l := range t.lin {
			if l.t == x {
				return Add(Sub(t, MulConst(x, l.k)), Const(8, c*uint64(l.k)))
			}
		}
	case KBV, KSym, KApp:
		if t.w != 8 {
			if !isByteCat(t) {
				return t
			}
			r := Const(t.w, 0)
			ch := false
			for i := uint(0); i < uint(t.w); i += 8 {
				b := Trunc(Shr(t, i), 8)
				n := substByte(b, x, c)
				ch = ch || n != b
				r = Xor(r, Shl(Zext(n, t.w), i))
			}
			if !ch {
				return t
			}
			return r
		}
		if t == x {
			return Const(8, c)
		}
		r := Xor(t, x)
		if r.k == KConst || len(monos(r)) < len(monos(t)) {
			return Xor(r, Const(8, c))
		}
		out := Const(8, 0)
		ch := false
		for _, m := range monos(t) {
			if len(m.fs) == 1 && m.fs[0].sh == 0 && m.fs[0].t.k == KLin && m.fs[0].t.w == 8 && m.mask == 0xff {
				n := substByte(m.fs[0].t, x, c)
				ch = ch || n != m.fs[0].t
				out = Xor(out, n)
				continue
			}
			out = Xor(out, mkBV(8, []mono{m}))
		}
		if ch {
			return out
		}
	}
	return t
}

// incBytes adds one to a concatenation of bytes.
func incBytes(t *Term) *Term {
	carry := True
	r := Const(t.w, 0)
	for i := uint(0); i < uint(t.w); i += 8 {
		b := Trunc(Shr(t, i), 8)
		n := Ite(carry, Add(b, Const(8, 1)), b)
		carry = And(carry, Not(toBool(Xor(b, Const(8, 255)))))
		r = Xor(r, Shl(Zext(n, t.w), i))
	}
	return r
}

// sameWhen: special equals general wherever the byte x is c.
func sameWhen(special, general, x *Term, c uint64, fuel *int) bool {
	if special == general {
		return true
	}
	if *fuel--; *fuel < 0 {
		return false
	}
	if special.k == KITE || general.k == KITE {
		v := topVar(special, general)
		sh, sl := cof(special, v)
		gh, gl := cof(general, v)
		if v.grp.byt == x {
			if int64(c) >= v.c {
				return sameWhen(sh, gh, x, c, fuel)
			}
			return sameWhen(sl, gl, x, c, fuel)
		}
		return sameWhen(sh, gh, x, c, fuel) && sameWhen(sl, gl, x, c, fuel)
	}
	return special.w > 1 && substByte(general, x, c) == substByte(special, x, c)
}

// ---------- linear arithmetic

func linParts(t *Term) ([]lterm, int64) {
	switch t.k {
	case KConst:
		return nil, sgn(t)
	case KLin:
		return t.lin, sgn(&Term{c: t.c, w: t.w})
	}
	return []lterm{{t, 1}}, 0
}

func mkLin(w uint8, ls []lterm, c int64) *Term {
	if len(ls) == 0 {
		return Const(w, uint64(c))
	}
	if len(ls) == 1 && ls[0].k == 1 && uint64(c)&full(w) == 0 {
		return ls[0].t
	}
	k := key0(KLin, w)
	k = put64(k, uint64(c)&full(w))
	for _, l := range ls {
		k = put32(k, l.t.id)
		k = put64(k, uint64(l.k)&full(w))
	}
	return cons(k, func() *Term { return &Term{k: KLin, w: w, lin: ls, c: uint64(c) & full(w)} })
}

func addLin(a, b []lterm, kb int64, w uint8) []lterm {
	out := make([]lterm, 0, len(a)+len(b))
	i, j := 0, 0
	norm := func(k int64) int64 { return int64(uint64(k)<<(64-w)) >> (64 - w) }
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i].t.id < b[j].t.id:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j].t.id < a[i].t.id:
			if k := norm(b[j].k * kb); k != 0 {
				out = append(out, lterm{b[j].t, k})
			}
			j++
		default:
			if k := norm(a[i].k + b[j].k*kb); k != 0 {
				out = append(out, lterm{a[i].t, k})
			}
			i++
			j++
		}
	}
	return out
}

func Add(a, b *Term) *Term {
	if a.w != b.w {
		panic("add width")
	}
	return lift2(opAdd, a, b, func(a, b *Term) *Term {
		if a.k == KConst && b.k == KConst {
			return Const(a.w, a.c+b.c)
		}
		if a.k == KConst && a.c == 0 {
			return b
		}
		if b.k == KConst && b.c == 0 {
			return a
		}
		if !isNum(a) && !isNum(b) && pm(a)&pm(b) == 0 {
			return mkBV(a.w, xorMonos(monos(a), monos(b)))
		}
		for s := 0; s < 2; s++ {
			if b.k == KConst && b.c == 1 && a.w > 8 && pm(a)>>8 != 0 && isByteCat(a) {
				return incBytes(a)
			}
			a, b = b, a
		}
		la, ca := linParts(a)
		lb, cb := linParts(b)
		return mkLin(a.w, addLin(la, lb, 1, a.w), ca+cb)
	})
}
func MulConst(a *Term, k int64) *Term {
	if k == 1 {
		return a
	}
	return lift1(0, a, func(a *Term) *Term {
		if a.k == KConst {
			return Const(a.w, a.c*uint64(k))
		}
		if k == 0 {
			return Const(a.w, 0)
		}
		if !isNum(a) && k > 0 && k&(k-1) == 0 {
			return Shl(a, uint(bits.TrailingZeros64(uint64(k))))
		}
		la, ca := linParts(a)
		return mkLin(a.w, addLin(nil, la, k, a.w), ca*k)
	})
}
func Neg(a *Term) *Term {
	if !isNum(a) && a.k != KConst && a.k != KITE && !numMode {
		if p := pm(a); p != 0 && p&(p-1) == 0 {
			b := toBool(a)
			return Ite(b, Const(a.w, -p), Const(a.w, 0))
		}
	}
	return MulConst(a, -1)
}
func Sub(a, b *Term) *Term { return Add(a, Neg(b)) }

func Mul(a, b *Term) *Term {
	if a.k == KConst {
		return MulConst(b, sgn(a))
	}
	if b.k == KConst {
		return MulConst(a, sgn(b))
	}
	return lift2(opMul, a, b, func(a, b *Term) *Term {
		if a.k == KConst {
			return MulConst(b, sgn(a))
		}
		if b.k == KConst {
			return MulConst(a, sgn(b))
		}
		if a.id > b.id {
			a, b = b, a
		}
		return App(a.w, "mul", a, b)
	})
}

// Range gives signed bounds of the mathematical value.
func Range(t *Term) (lo, hi int64, ok bool) {
	switch t.k {
	case KConst:
		return sgn(t), sgn(t), true
	case KITE:
		l1, h1, o1 := Range(t.hi)
		l2, h2, o2 := Range(t.lo)
		return min(l1, l2), max(h1, h2), o1 && o2
	case KBV:
		p := pm(t)
		if p>>63 != 0 || t.w < 64 && p>>(t.w-1) != 0 && false {
			return 0, 0, false
		}
		return 0, int64(p), true
	case KLin:
		lo, hi = sgn(&Term{c: t.c, w: t.w}), sgn(&Term{c: t.c, w: t.w})
		for _, l := range t.lin {
			a, b, o := Range(l.t)
			if !o || a < -(1<<48) || b > 1<<48 || l.k > 1<<14 || l.k < -(1<<14) {
				return 0, 0, false
			}
			if l.k < 0 {
				a, b = b, a
			}
			lo += a * l.k
			hi += b * l.k
		}
		if t.w < 64 && (lo < -(1<<(t.w-1)) || hi > int64(full(t.w))) {
			return 0, 0, false
		}
		return lo, hi, true
	}
	if t.hasR {
		return t.rlo, t.rhi, true
	}
	if t.w < 64 {
		return 0, int64(full(t.w)), true
	}
	return 0, 0, false
}

const splitLimit = 600

// splitNum expands a bounded number into gates with constant leaves (nil if too wide).
func splitNum(t *Term, limit int64) *Term {
	if t.k == KConst {
		return t
	}
	return mapLeaves2(t, func(t *Term) *Term {
		if t.k == KConst {
			return t
		}
		lo, hi, ok := Range(t)
		if !ok || hi-lo > limit {
			return nil
		}
		r := Const(t.w, uint64(lo))
		for k := lo + 1; k <= hi; k++ {
			r = Ite(geConst(t, k), Const(t.w, uint64(k)), r)
		}
		return r
	})
}
func mapLeaves2(a *Term, leaf func(a *Term) *Term) *Term {
	bad := false
	r := mapLeaves(a, func(t *Term) *Term {
		x := leaf(t)
		if x == nil {
			bad = true
			return t
		}
		return x
	})
	if bad {
		return nil
	}
	return r
}

// exactDiv is t/m for a sum of multiples of m.
func exactDiv(t *Term, m int64) *Term {
	if _, _, ok := Range(t); !ok {
		return nil
	}
	ls, c := linParts(t)
	if len(ls) == 0 || c%m != 0 {
		return nil
	}
	out := make([]lterm, len(ls))
	for i, l := range ls {
		if l.k%m != 0 {
			return nil
		}
		out[i] = lterm{l.t, l.k / m}
	}
	return mkLin(t.w, out, c/m)
}

// divConst: t/m for a bounded non-negative number, as gates with constant leaves.
func divConst(t *Term, m int64) *Term {
	lo, hi, ok := Range(t)
	if !ok || lo < 0 {
		return nil
	}
	if q := exactDiv(t, m); q != nil {
		return q
	}
	if hi/m-lo/m > splitLimit {
		return nil
	}
	r := Const(t.w, uint64(lo/m))
	for k := lo/m + 1; k <= hi/m; k++ {
		r = Ite(geConst(t, k*m), Const(t.w, uint64(k)), r)
	}
	return r
}
func modConst(t *Term, m int64) *Term {
	d := divConst(t, m)
	if d == nil {
		return nil
	}
	return Sub(t, MulConst(d, m))
}

// geConst is t >= k for a number (ungated) t.
func geConst(t *Term, k int64) *Term {
	ls, c := linParts(t)
	return geLin(ls, k-c, t.w)
}

// geLin is sum(ls) >= k.
func geLin(ls []lterm, k int64, w uint8) *Term {
	if len(ls) == 0 {
		if 0 >= k {
			return True
		}
		return False
	}
	var g int64
	for _, l := range ls {
		g = gcd(g, l.k)
	}
	neg := ls[0].k < 0
	ns := make([]lterm, len(ls))
	for i, l := range ls {
		ns[i] = lterm{l.t, l.k / g}
		if neg {
			ns[i].k = -ns[i].k
		}
	}
	var f *Term
	if !neg {
		// L >= ceil(k/g)
		kk := ceilDiv(k, g)
		f = mkLin(w, ns, 0)
		return geTerm(f, kk)
	}
	// -L >= ceil(k/g)  <=>  L <= -ceil  <=>  !(L >= -ceil+1)
	kk := -ceilDiv(k, g) + 1
	f = mkLin(w, ns, 0)
	return Not(geTerm(f, kk))
}
func geTerm(f *Term, k int64) *Term {
	if f.k != KLin && f.w != 64 {
		if y, c := byteOf(f); y != nil && c == 0 {
			f = Zext(y, 64)
		}
	}
	if f.k == KBV && k > 0 && k < 256 {
		// x + c mod 256 >= k: x in an interval
		if y, c := byteOf(f); y != nil && c == 0 && y.k == KLin && len(y.lin) == 1 && y.lin[0].k == 1 {
			x, c := y.lin[0].t, int64(y.c)
			lo, hi := (k-c)&255, (255-c)&255
			a, b := byteGE(x, lo), Not(byteGE(x, hi+1))
			if lo <= hi {
				return And(a, b)
			}
			return Or(a, b)
		}
	}
	if lo, hi, ok := Range(f); ok {
		if lo >= k {
			return True
		}
		if hi < k {
			return False
		}
	}
	if k > -1<<40 && k < 1<<40 && len(f.lin) == 2 && isAddr(f.lin[0].t) && isAddr(f.lin[1].t) && f.lin[0].k == -f.lin[1].k {
		// distinct objects are disjoint: only their order is unknown
		k = 0
	}
	return varNode(geVar(f, k))
}

func isAddr(t *Term) bool { return t.k == KSym && strings.HasPrefix(t.name, "addr:") }

func gcd(a, b int64) int64 {
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	if a < 0 {
		a = -a
	}
	return a
}
func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a > 0) == (b > 0) {
		q++
	}
	return q
}

func eqNum(d *Term) *Term { // d == 0
	return And(geConst(d, 0), Not(geConst(d, 1)))
}

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.w != b.w {
		panic("eq width")
	}
	if a.w == 1 {
		return Ite(a, b, Not(b))
	}
	return lift2(opEq, a, b, func(a, b *Term) *Term {
		if a == b {
			return True
		}
		if a.k == KConst && b.k == KConst {
			return False
		}
		_, _, ra := Range(a)
		_, _, rb := Range(b)
		if (isNum(a) || isNum(b)) && ra && rb && a.w == 64 {
			return eqNum(Sub(a, b))
		}
		if a.k == KLin || b.k == KLin {
			d := Sub(a, b)
			if d.k == KConst {
				if d.c == 0 {
					return True
				}
				return False
			}
			// canonical sign
			if ls, _ := linParts(d); ls[0].k < 0 {
				d = Neg(d)
			}
			return Not(toBool(d))
		}
		return Not(toBool(Xor(a, b)))
	})
}

func toMath(t *Term, signed bool) (*Term, bool) {
	if t.w < 64 {
		if signed {
			t = Sext(t, 64)
		} else {
			t = Zext(t, 64)
		}
	}
	_, _, ok := Range(t)
	return t, ok
}

func Lt(a, b *Term, signed bool) *Term {
	op := uint32(opUlt)
	if signed {
		op = opSlt
	}
	return lift2(op, a, b, func(a, b *Term) *Term {
		if a == b {
			return False
		}
		if a.k == KConst && b.k == KConst {
			if signed && sgn(a) < sgn(b) || !signed && a.c < b.c {
				return True
			}
			return False
		}
		if !signed && b.k == KConst && b.c == 0 {
			return False
		}
		if !signed && b.k == KConst && b.c == 1 {
			return Not(toBool(a))
		}
		if !signed && a.k == KConst && a.c == 0 {
			return toBool(b)
		}
		if signed && a.w == 8 && (a.k == KConst) != (b.k == KConst) {
			// an order of signed bytes in terms of unsigned ones
			x, k := a, int64(0)
			if a.k == KConst {
				x, k = b, sgn(a)+1 // c < x: not x < c+1
			} else {
				k = sgn(b)
			}
			if y, c := byteOf(x); y != nil && c == 0 {
				neg := byteGE(x, 128)
				var less *Term
				if k >= 0 {
					less = Or(neg, Not(byteGE(x, k)))
				} else {
					less = And(neg, Not(byteGE(x, 256+k)))
				}
				if a.k == KConst {
					return Not(less)
				}
				return less
			}
		}
		x, ok1 := toMath(a, signed)
		y, ok2 := toMath(b, signed)
		if ok1 && ok2 {
			lo1, _, _ := Range(x)
			lo2, _, _ := Range(y)
			if signed || lo1 >= 0 && lo2 >= 0 {
				return geConst2(Sub(y, x), 1)
			}
		}
		nm := "ult"
		if signed {
			nm = "slt"
		}
		// one order variable per pair, so that <, == and > exclude each other
		ne := Not(Eq(a, b))
		if a.id < b.id {
			return And(ne, App(1, nm, a, b))
		}
		return And(ne, Not(App(1, nm, b, a)))
	})
}
func geConst2(t *Term, k int64) *Term {
	return lift1(0, t, func(t *Term) *Term { return geConst(t, k) })
}

func Ult(a, b *Term) *Term { return Lt(a, b, false) }
func Slt(a, b *Term) *Term { return Lt(a, b, true) }

// ---------- printing, support

func (t *Term) String() string { return tstr(t, 6) }

func tstr(t *Term, d int) string {
	if d == 0 {
		return "…"
	}
	switch t.k {
	case KConst:
		if t.w == 1 {
			if t.c == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("%#x", t.c)
	case KSym:
		return t.name
	case KITE:
		return fmt.Sprintf("(%s ? %s : %s)", vstr(t.v, d-1), tstr(t.hi, d-1), tstr(t.lo, d-1))
	case KBV:
		var p []string
		for i, m := range t.ms {
			if i == 4 {
				p = append(p, "…")
				break
			}
			var q []string
			for _, f := range m.fs {
				s := tstr(f.t, d-1)
				if f.sh > 0 {
					s += fmt.Sprintf("<<%d", f.sh)
				} else if f.sh < 0 {
					s += fmt.Sprintf(">>%d", -f.sh)
				}
				q = append(q, s)
			}
			if m.mask != full(t.w) || len(q) == 0 {
				q = append(q, fmt.Sprintf("%#x", m.mask))
			}
			p = append(p, strings.Join(q, "&"))
		}
		return "(" + strings.Join(p, " ^ ") + ")"
	case KLin:
		var p []string
		for i, l := range t.lin {
			if i == 6 {
				p = append(p, "…")
				break
			}
			if l.k == 1 {
				p = append(p, tstr(l.t, d-1))
			} else {
				p = append(p, fmt.Sprintf("%d*%s", l.k, tstr(l.t, d-1)))
			}
		}
		if t.c != 0 {
			p = append(p, fmt.Sprint(sgn(&Term{c: t.c, w: t.w})))
		}
		return "(" + strings.Join(p, "+") + ")"
	}
	var p []string
	for i, a := range t.args {
		if i == 5 {
			p = append(p, fmt.Sprintf("…%d", len(t.args)))
			break
		}
		p = append(p, tstr(a, d-1))
	}
	return t.name + "(" + strings.Join(p, ",") + ")"
}
func vstr(v *BVar, d int) string {
	if v.grp.isGe {
		return fmt.Sprintf("%s>=%d", tstr(v.grp.t, d), v.c)
	}
	return tstr(v.grp.t, d)
}

type suppSet struct{ m map[*Term]bool }

// Support is the set of symbols a term depends on.
func Support(t *Term, out map[*Term]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	switch t.k {
	case KSym:
		out[t] = true
	case KITE:
		Support(t.v.grp.t, out, seen)
		Support(t.hi, out, seen)
		Support(t.lo, out, seen)
	case KBV:
		for _, m := range t.ms {
			for _, f := range m.fs {
				Support(f.t, out, seen)
			}
		}
	case KLin:
		for _, l := range t.lin {
			Support(l.t, out, seen)
		}
	case KApp:
		for _, a := range t.args {
			Support(a, out, seen)
		}
	}
}
