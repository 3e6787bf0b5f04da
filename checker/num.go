package main

import (
	"fmt"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exact integer semantics of multi-word arithmetic. The word-level terms that
// the interpreters of Go and assembly build are read as integer polynomials:
// every 64-bit word that cannot be shown to be free of wrap-around is an atom in
// [0,2^64), every carry is the exact quotient (x+y+c-word)/2^64, the high word
// of a product (xy-low)/2^64. Carries that bounds decide vanish; borrows that
// select a correction are split into their two cases.

var numMode bool // set while an entry point in mode "num" is analysed

type nval struct {
	p      *npoly
	lo, hi *big.Int
}

type ncons struct {
	p      *npoly
	lo, hi *big.Int
}

type needSplit struct{ t *Term }
type numFail struct{ msg string }

type nctx struct {
	atoms  []*natom
	val    map[*Term]*nval
	cons   []ncons
	env    map[*Term]bool
	names  map[string]*npoly
	field  map[string]*npoly
	exacts []uint16 // words known to equal a polynomial, in order
	stop   bool     // contradiction: the case cannot happen
}

type numDecl struct {
	name  string
	words []*Term
	bound *big.Int
}

type numState struct {
	decls []numDecl
}

var big64 = new(big.Int).Lsh(bOne, 64)
var bigMax64 = new(big.Int).Sub(big64, bOne)
var bZero = new(big.Int)
var bOne = big.NewInt(1)

func newNctx(ds []numDecl, env map[*Term]bool) *nctx {
	c := &nctx{val: map[*Term]*nval{}, env: env, names: map[string]*npoly{}, field: map[string]*npoly{}}
	for _, d := range ds {
		n := len(d.words)
		if int(d.bound.TrailingZeroBits()) >= 64*(n-1) {
			// only the top word is bounded: the words are independent
			sum := nint(0)
			for i, t := range d.words {
				hi := bigMax64
				if i == n-1 {
					hi = new(big.Int).Rsh(d.bound, uint(64*i))
					hi.Sub(hi, bOne)
				}
				w := c.atom(bZero, hi, fmt.Sprintf("%s[%d]", d.name, i))
				c.val[t] = &nval{nvar(w.id), bZero, hi}
				sum = sum.addScaled(nvar(w.id), bOne, 64*i)
			}
			c.names[d.name] = sum
			continue
		}
		a := c.atom(bZero, new(big.Int).Sub(d.bound, bOne), d.name)
		A := nvar(a.id)
		c.names[d.name] = A
		rest := A
		for i, t := range d.words {
			if i == n-1 {
				p := rest.shl(-64 * i)
				hi := new(big.Int).Rsh(a.hi, uint(64*i))
				if hi.Cmp(bigMax64) > 0 {
					hi = bigMax64
				}
				c.val[t] = &nval{p, bZero, hi}
				c.cons = append(c.cons, ncons{p, bZero, hi})
				break
			}
			w := c.atom(bZero, bigMax64, fmt.Sprintf("%s[%d]", d.name, i))
			c.val[t] = &nval{nvar(w.id), bZero, bigMax64}
			rest = rest.addScaled(nvar(w.id), bNeg, 64*i)
		}
	}
	return c
}

func (c *nctx) atom(lo, hi *big.Int, name string) *natom {
	if len(c.atoms) > 60000 {
		panic(numFail{"too many words"})
	}
	a := &natom{id: uint16(len(c.atoms)), lo: lo, hi: hi, name: name}
	c.atoms = append(c.atoms, a)
	return a
}

// bound gives integer bounds of a polynomial that has an integer value.
func (c *nctx) bound(p *npoly) (lo, hi *big.Int) {
	lo, hi = new(big.Int), new(big.Int)
	for k, v := range p.m {
		l, h := new(big.Int).Set(v), new(big.Int).Set(v)
		if v.Sign() > 0 {
			for i := 0; i < len(k); i += 2 {
				a := c.atoms[uint16(k[i])<<8|uint16(k[i+1])]
				l.Mul(l, a.lo)
				h.Mul(h, a.hi)
			}
		} else {
			for i := 0; i < len(k); i += 2 {
				a := c.atoms[uint16(k[i])<<8|uint16(k[i+1])]
				l.Mul(l, a.hi)
				h.Mul(h, a.lo)
			}
		}
		lo.Add(lo, l)
		hi.Add(hi, h)
	}
	if p.sh > 0 {
		hi.Rsh(hi, p.sh) // floor
		m := new(big.Int).Neg(lo)
		m.Rsh(m, p.sh)
		lo.Neg(m) // ceil
	}
	return
}

func bmax(a, b *big.Int) *big.Int {
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func bmin(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

// tight improves the bounds of p with the known constraints.
func (c *nctx) tight(p *npoly, depth int) (lo, hi *big.Int) {
	lo, hi = c.bound(p)
	if depth == 0 {
		return
	}
	for _, k := range c.cons {
		// cancel one monomial of p
		for key, pv := range p.m {
			kv, ok := k.p.m[key]
			if !ok || key == "" {
				continue
			}
			ab := new(big.Int).Abs(kv)
			if ab.BitLen() == 0 || int(ab.TrailingZeroBits()) != ab.BitLen()-1 {
				continue
			}
			// lambda = (pv/2^psh) / (kv/2^ksh)
			num := new(big.Int).Set(pv)
			if kv.Sign() < 0 {
				num.Neg(num)
			}
			e := int(k.p.sh) - int(p.sh) - (ab.BitLen() - 1)
			q := p.addScaled(k.p, new(big.Int).Neg(num), e)
			if len(q.m) > len(p.m)+len(k.p.m)-2 && len(q.m) > 40 {
				continue
			}
			ql, qh := c.tight(q, depth-1)
			// p = q + num*2^e*k
			sc := func(v *big.Int, up bool) *big.Int {
				t := new(big.Int).Mul(v, num)
				if e >= 0 {
					return t.Lsh(t, uint(e))
				}
				if up {
					t.Neg(t)
					t.Rsh(t, uint(-e))
					return t.Neg(t)
				}
				return t.Rsh(t, uint(-e))
			}
			kl, kh := k.lo, k.hi
			if num.Sign() < 0 {
				kl, kh = kh, kl
			}
			lo = bmax(lo, new(big.Int).Add(ql, sc(kl, false)))
			hi = bmin(hi, new(big.Int).Add(qh, sc(kh, true)))
		}
	}
	return
}

func (c *nctx) mk(p *npoly, lo, hi *big.Int) *nval {
	l, h := c.both(p)
	v := &nval{p, bmax(l, lo), bmin(h, hi)}
	if v.lo.Cmp(v.hi) > 0 {
		c.stop = true
		v.hi = v.lo
	}
	return v
}

// fit gives the word congruent to p whose mathematical bounds are lo, hi.
func (c *nctx) fit(t *Term, p *npoly, lo, hi *big.Int) *nval {
	l, h := c.both(p)
	lo, hi = bmax(lo, l), bmin(hi, h)
	a, b := new(big.Int).Rsh(lo, 64), new(big.Int).Rsh(hi, 64)
	if a.Cmp(b) == 0 {
		off := new(big.Int).Lsh(a, 64)
		q := p
		if off.Sign() != 0 {
			q = p.sub(nconst(off))
		}
		return c.mk(q, new(big.Int).Sub(lo, off), new(big.Int).Sub(hi, off))
	}
	// the same word through the definitions of its parts
	q := c.reduce(p, 64)
	if q != p {
		l, h = c.both(q)
		a, b = new(big.Int).Rsh(l, 64), new(big.Int).Rsh(h, 64)
		if a.Cmp(b) == 0 {
			off := new(big.Int).Lsh(a, 64)
			return c.mk(q.sub(nconst(off)), new(big.Int).Sub(l, off), new(big.Int).Sub(h, off))
		}
	}
	at := c.atom(bZero, bigMax64, fmt.Sprintf("w%d", t.id))
	at.def = p
	return &nval{nvar(at.id), bZero, bigMax64}
}

func bigOfU(x uint64) *big.Int { return new(big.Int).SetUint64(x) }

// bitOf is the variable for a carry or borrow.
func carryOfVar(v *BVar) *Term {
	g := v.grp.t
	if !v.grp.isGe && g.k == KApp && g.name == "bit" && g.args[1].c == 0 && isCarry(g.args[0]) {
		return g.args[0]
	}
	if v.grp.isGe && isCarry(g) && v.c == 1 {
		return g
	}
	return nil
}

func isCarry(t *Term) bool { return t.k == KApp && (t.name == "carry" || t.name == "borrow") }

func (c *nctx) word(t *Term) *nval {
	if v, ok := c.val[t]; ok {
		return v
	}
	v := c.word0(t)
	c.val[t] = v
	return v
}

// prepare evaluates the terms in the order of their creation.
func (c *nctx) prepare(ts []*Term) {
	seen := map[*Term]bool{}
	var all []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.k {
		case KITE:
			if k := carryOfVar(t.v); k != nil {
				walk(k)
			}
			if b, ok := c.branch(t); ok {
				walk(b)
			}
			return
		case KLin:
			for _, l := range t.lin {
				walk(l.t)
			}
		case KApp:
			for _, a := range t.args {
				walk(a)
			}
			if isCarry(t) {
				walk(sumOf(t))
			}
		case KBV:
			for _, m := range t.ms {
				for _, f := range m.fs {
					walk(f.t)
				}
			}
		}
		all = append(all, t)
	}
	for _, t := range ts {
		walk(t)
	}
	sort.SliceStable(all, func(i, j int) bool { return all[i].id < all[j].id })
	for _, t := range all {
		if t.w == 64 {
			c.word(t)
		}
	}
}

// branch of a conditional term in the current case.
func (c *nctx) branch(t *Term) (*Term, bool) {
	key := carryOfVar(t.v)
	var b, ok bool
	if key != nil {
		b, ok = c.env[key]
		if !ok {
			// decided by its operands?
			if v, done := c.val[key]; done {
				if k, isK := v.p.isConst(); isK {
					b, ok = k.Sign() != 0, true
				}
			}
		}
	} else {
		key = varNode(t.v)
		b, ok = c.env[key]
	}
	if !ok {
		panic(needSplit{key})
	}
	if b {
		return t.hi, true
	}
	return t.lo, true
}

func sumOf(t *Term) *Term {
	if t.name == "carry" {
		return Add(Add(t.args[0], t.args[1]), t.args[2])
	}
	return Sub(Sub(t.args[0], t.args[1]), t.args[2])
}

func (c *nctx) word0(t *Term) *nval {
	switch t.k {
	case KConst:
		b := bigOfU(t.c)
		return &nval{nconst(b), b, b}
	case KITE:
		b, _ := c.branch(t)
		return c.word(b)
	case KLin:
		p := nconst(big.NewInt(sgn(&Term{c: t.c, w: t.w})))
		lo := big.NewInt(sgn(&Term{c: t.c, w: t.w}))
		hi := new(big.Int).Set(lo)
		for _, l := range t.lin {
			v := c.word(l.t)
			k := big.NewInt(l.k)
			p = p.addScaled(v.p, k, 0)
			a, b := new(big.Int).Mul(v.lo, k), new(big.Int).Mul(v.hi, k)
			if l.k < 0 {
				a, b = b, a
			}
			lo.Add(lo, a)
			hi.Add(hi, b)
		}
		return c.fit(t, p, lo, hi)
	case KApp:
		switch t.name {
		case "carry", "borrow":
			x, y, z := c.word(t.args[0]), c.word(t.args[1]), c.word(t.args[2])
			leaf := sumOf(t)
			for leaf.k == KITE {
				leaf, _ = c.branch(leaf)
			}
			s := c.word(leaf)
			sg := bOne
			var p *npoly // exact mathematical result
			lo, hi := new(big.Int), new(big.Int)
			if t.name == "borrow" {
				sg = bNeg
				p = x.p.sub(y.p).sub(z.p)
				lo.Sub(x.lo, y.hi).Sub(lo, z.hi)
				hi.Sub(x.hi, y.lo).Sub(hi, z.lo)
			} else {
				p = x.p.add(y.p).add(z.p)
				lo.Add(x.lo, y.lo).Add(lo, z.lo)
				hi.Add(x.hi, y.hi).Add(hi, z.hi)
			}
			l, h := c.both(p)
			lo, hi = bmax(lo, l), bmin(hi, h)
			lo, hi = new(big.Int).Rsh(lo, 64), new(big.Int).Rsh(hi, 64)
			if t.name == "borrow" {
				lo, hi = new(big.Int).Neg(hi), new(big.Int).Neg(lo)
			}
			q := p.sub(s.p).shl(-64).scale(sg)
			l, h = c.both(q)
			lo, hi = bmax(lo, l), bmin(hi, h)
			if lo.Cmp(hi) > 0 {
				c.stop = true
				lo = hi
			}
			k, fixed := lo, lo.Cmp(hi) == 0
			if b, ok := c.env[t]; ok {
				k = bZero
				if b {
					k = bOne
				}
				if k.Cmp(lo) < 0 || k.Cmp(hi) > 0 {
					c.stop = true
				}
				fixed = true
			}
			if !fixed {
				return &nval{q, lo, hi}
			}
			// word = exact result - 2^64*k
			e := p.addScaled(nconst(k), new(big.Int).Neg(sg), 64)
			if id, ok := s.p.single(); ok && c.atoms[id].def != nil && !e.has(id) {
				c.cons = append(c.cons, ncons{c.expand(e), bZero, bigMax64})
				a := c.atoms[id]
				a.exact, a.def = e, nil
				c.exacts = append(c.exacts, id)
				l, h := c.both(e)
				a.lo, a.hi = bmax(a.lo, l), bmin(a.hi, h)
				if a.lo.Cmp(a.hi) > 0 {
					c.stop = true
					a.hi = a.lo
				}
				c.val[leaf] = &nval{s.p, a.lo, a.hi}
			} else if d := q.sub(nconst(k)); len(d.m) > 0 {
				c.cons = append(c.cons, ncons{d, bZero, bZero})
			}
			return &nval{nconst(k), k, k}
		case "mulhi":
			x, y := c.word(t.args[0]), c.word(t.args[1])
			l := c.word(Mul(t.args[0], t.args[1]))
			p := x.p.mul(y.p).sub(l.p).shl(-64)
			lo := new(big.Int).Mul(x.lo, y.lo)
			hi := new(big.Int).Mul(x.hi, y.hi)
			return c.mk(p, lo.Rsh(lo, 64), hi.Rsh(hi, 64))
		case "mul":
			x, y := c.word(t.args[0]), c.word(t.args[1])
			return c.fit(t, x.p.mul(y.p), new(big.Int).Mul(x.lo, y.lo), new(big.Int).Mul(x.hi, y.hi))
		}
		panic(numFail{"no integer meaning for " + tstr(t, 3)})
	case KBV:
		return c.bitFields(t)
	}
	panic(numFail{"word of unknown value " + tstr(t, 3)})
}

// bitFields reads x<<k | y>>j and the like.
func (c *nctx) bitFields(t *Term) *nval {
	p := nint(0)
	var used uint64
	lo, hi := new(big.Int), new(big.Int)
	for _, m := range t.ms {
		if used&m.mask != 0 {
			panic(numFail{"overlapping bits in " + tstr(t, 3)})
		}
		used |= m.mask
		if len(m.fs) == 0 {
			b := bigOfU(m.mask)
			p = p.add(nconst(b))
			lo.Add(lo, b)
			hi.Add(hi, b)
			continue
		}
		if len(m.fs) > 1 {
			panic(numFail{"conjunction of words in " + tstr(t, 3)})
		}
		f := m.fs[0]
		// split the mask into runs of ones
		for i := 0; i < 64; {
			if m.mask>>uint(i)&1 == 0 {
				i++
				continue
			}
			j := i
			for j < 64 && m.mask>>uint(j)&1 == 1 {
				j++
			}
			a, b := i-int(f.sh), j-int(f.sh) // bits [a,b) of the word
			v := c.top(f.t, a).sub(c.top(f.t, b).shl(b - a))
			p = p.add(v.shl(i))
			h := new(big.Int).Lsh(bOne, uint(b-a))
			h.Sub(h, bOne)
			hi.Add(hi, h.Lsh(h, uint(i)))
			i = j
		}
	}
	return c.mk(p, lo, hi)
}

// top is floor(word / 2^k).
func (c *nctx) top(t *Term, k int) *npoly {
	if k <= 0 {
		return c.word(t).p
	}
	if k >= int(t.w) {
		return nint(0)
	}
	key := fmt.Sprintf("%d>>%d", t.id, k)
	if p, ok := c.field[key]; ok {
		return p
	}
	v := c.word(t)
	if l, h := new(big.Int).Rsh(v.lo, uint(k)), new(big.Int).Rsh(v.hi, uint(k)); l.Cmp(h) == 0 {
		return nconst(l)
	}
	a := c.atom(new(big.Int).Rsh(v.lo, uint(k)), new(big.Int).Rsh(v.hi, uint(k)), fmt.Sprintf("(w%d>>%d)", t.id, k))
	p := nvar(a.id)
	rest := v.p.sub(p.shl(k))
	c.cons = append(c.cons, ncons{rest, bZero, new(big.Int).Sub(new(big.Int).Lsh(bOne, uint(k)), bOne)})
	c.field[key] = p
	return p
}

// expand writes p without the words that are known exactly.
func (c *nctx) expand(p *npoly) *npoly {
	for i := len(c.exacts) - 1; i >= 0; i-- {
		if id := c.exacts[i]; p.has(id) {
			p = p.subst(id, c.atoms[id].exact)
		}
	}
	return p
}

// both bounds p as written and in every stage of its expansion.
func (c *nctx) both(p *npoly) (lo, hi *big.Int) {
	lo, hi = c.bound(p)
	for i := len(c.exacts) - 1; i >= 0; i-- {
		if id := c.exacts[i]; p.has(id) {
			p = p.subst(id, c.atoms[id].exact)
			l, h := c.bound(p)
			lo, hi = bmax(lo, l), bmin(hi, h)
		}
	}
	return
}

// reduce replaces words by their definitions where multiples of 2^n do not matter.
func (c *nctx) reduce(p *npoly, n int) *npoly {
	p = c.expand(p)
	for step := 0; ; step++ {
		if step > 4000 {
			panic(numFail{"reduction does not end"})
		}
		var best uint16
		var coef *big.Int
		for k, v := range p.m {
			if len(k) != 2 {
				continue
			}
			id := uint16(k[0])<<8 | uint16(k[1])
			if c.atoms[id].def == nil || coef != nil && id < best {
				continue
			}
			z := int(v.TrailingZeroBits()) - int(p.sh)
			if z+64 < n {
				continue
			}
			best, coef = id, v
		}
		if coef == nil {
			return p
		}
		a := c.atoms[best]
		p = c.expand(p.addScaled(a.def.sub(nvar(best)), coef, -int(p.sh)))
	}
}

// expr evaluates sums of products of declared names.
func (c *nctx) expr(s string) *npoly {
	r := nint(0)
	sign := int64(1)
	for _, part := range strings.FieldsFunc(strings.NewReplacer("-", "+-").Replace(s), func(r rune) bool { return r == '+' }) {
		part = strings.TrimSpace(part)
		sign = 1
		if strings.HasPrefix(part, "-") {
			sign, part = -1, strings.TrimSpace(part[1:])
		}
		t := nint(sign)
		for _, f := range strings.Split(part, "*") {
			f = strings.TrimSpace(f)
			if p, ok := c.names[f]; ok {
				t = t.mul(p)
			} else {
				panic(numFail{"unknown operand " + f})
			}
		}
		r = r.add(t)
	}
	return r
}

// check decides out = expr: modulo 2^(64 len) when mod is nil, else modulo mod
// (times 2^(64*mont) on the left) with out below bound.
func (c *nctx) check(out []*Term, expr string, mod, bound *big.Int, mont int) string {
	c.prepare(out)
	if c.stop {
		return ""
	}
	n := 64 * len(out)
	q := nint(0)
	for i, t := range out {
		q = q.addScaled(c.word(t).p, bOne, 64*i)
	}
	if c.stop {
		return ""
	}
	for _, k := range c.cons {
		lo, hi := c.tight(k.p, 1)
		if lo.Cmp(k.hi) > 0 || hi.Cmp(k.lo) < 0 {
			c.stop = true
			return ""
		}
	}
	want := c.expand(c.expr(expr))
	q = c.reduce(q, n)
	if mod == nil && bound == nil {
		d := c.reduce(q.sub(want), n)
		M := new(big.Int).Lsh(bOne, uint(n))
		t := new(big.Int)
		for _, v := range d.m {
			if d.sh != 0 || t.Mod(v, M).Sign() != 0 {
				return "result differs from " + expr + " by " + d.str(c.atoms)
			}
		}
		return ""
	}
	R := new(big.Int).Lsh(bOne, uint(n))
	lo, hi := c.tight(q, 2)
	off := new(big.Int).Div(lo, R) // floor
	if off.Sign() != 0 {
		off.Mul(off, R)
		q = q.sub(nconst(off))
		lo, hi = new(big.Int).Sub(lo, off), new(big.Int).Sub(hi, off)
	}
	if lo.Sign() < 0 || hi.Cmp(R) >= 0 {
		return fmt.Sprintf("value %s is not known to fit the result: [%s, %s]", q.str(c.atoms), lo.Text(16), hi.Text(16))
	}
	if bound != nil && hi.Cmp(bound) >= 0 {
		return fmt.Sprintf("result can be as large as 0x%s", hi.Text(16))
	}
	d := q.shl(64 * mont).sub(want)
	if mod == nil {
		if len(d.m) != 0 {
			return "result differs from " + expr + " by " + d.str(c.atoms)
		}
		return ""
	}
	if !d.divisible(mod) {
		return "result is not congruent to " + expr + ": difference " + d.str(c.atoms)
	}
	return ""
}

// numCheck runs the check in every case of the undecided selections.
func numCheck(ds []numDecl, out []*Term, expr string, mod, bound *big.Int, mont int) (msg string, cases int) {
	live := 0
	var rec func(env map[*Term]bool, depth int) string
	rec = func(env map[*Term]bool, depth int) (msg string) {
		var split *Term
		func() {
			defer func() {
				switch x := recover().(type) {
				case nil:
				case needSplit:
					split = x.t
				case numFail:
					msg = x.msg
				default:
					panic(x)
				}
			}()
			cases++
			n := newNctx(ds, env)
			msg = n.check(out, expr, mod, bound, mont)
			if !n.stop {
				live++
			}
		}()
		if split == nil {
			return msg
		}
		if depth > 12 {
			return "too many selections"
		}
		for _, b := range []bool{false, true} {
			e := map[*Term]bool{split: b}
			for k, v := range env {
				e[k] = v
			}
			if m := rec(e, depth+1); m != "" {
				return fmt.Sprintf("%s (when #%d %s is %v)", m, split.id, tstr(split, 3), b)
			}
		}
		return ""
	}
	msg = rec(map[*Term]bool{}, 0)
	if msg == "" && live == 0 {
		msg = "no case can happen"
	}
	return
}

// words loads the 64-bit words of a slice of known length.
func (in *Interp) numWords(st *State, v Val) ([]Ptr, bool) {
	s, ok := v.(Slice)
	if !ok || s.len.k != KConst {
		return nil, false
	}
	var out []Ptr
	for i := int64(0); i < sgn(s.len); i++ {
		out = append(out, Ptr{s.o, Add(s.off, Const(64, uint64(8*i)))})
	}
	return out, true
}

func (in *Interp) numConst(st *State, v Val) (*big.Int, bool) {
	ps, ok := in.numWords(st, v)
	if !ok {
		return nil, false
	}
	r := new(big.Int)
	for i := len(ps) - 1; i >= 0; i-- {
		t, ok := in.load(st, ps[i], types.Typ[types.Uint64]).(*Term)
		if !ok || t.k != KConst {
			return nil, false
		}
		r.Lsh(r, 64)
		r.Or(r, bigOfU(t.c))
	}
	return r, true
}

func init() {
	stdModels[rtPath+".NumIn"] = func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
		ps, ok := in.numWords(st, a[1])
		b, ok2 := in.numConst(st, a[2])
		if !ok || !ok2 {
			in.imprecise("NumIn: operand not resolved")
			return nil, st
		}
		d := numDecl{name: strArg(a[0]), bound: b}
		if b.Sign() == 0 {
			d.bound = new(big.Int).Lsh(bOne, uint(64*len(ps)))
		}
		for i, p := range ps {
			t := Sym(64, fmt.Sprintf("num:%s[%d]", d.name, i))
			in.store(st, p, types.Typ[types.Uint64], t, True)
			d.words = append(d.words, t)
		}
		in.num.decls = append(in.num.decls, d)
		return nil, st
	}
	stdModels[rtPath+".NumCheck"] = func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
		o := Obligation{Harness: in.harness, Name: strArg(a[0]), Where: relPos(in.fset.Position(in.curPos))}
		ps, ok := in.numWords(st, a[1])
		mod, ok2 := in.numConst(st, a[3])
		bnd, ok3 := in.numConst(st, a[4])
		mont, ok4 := constArg(a[5])
		if !ok || !ok2 || !ok3 || !ok4 {
			o.Detail = "operand not resolved"
			in.addObl(o)
			return nil, st
		}
		if mod.Sign() == 0 {
			mod = nil
		}
		if bnd.Sign() == 0 {
			bnd = nil
		}
		var ts []*Term
		for _, p := range ps {
			t, ok := in.load(st, p, types.Typ[types.Uint64]).(*Term)
			if !ok {
				o.Detail = "result not resolved"
				in.addObl(o)
				return nil, st
			}
			ts = append(ts, t)
		}
		if st.pc != True {
			o.Detail = "result depends on a condition: " + tstr(st.pc, 3)
		} else {
			o.Detail, _ = numCheck(in.num.decls, ts, strArg(a[2]), mod, bnd, int(mont))
		}
		o.OK = o.Detail == ""
		in.assertHit[o.Where] = true
		in.addObl(o)
		return nil, st
	}
}
