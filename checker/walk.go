package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Mode "walk", on top of "pXXX.fp2": the isogeny-walk domain for SIDH. A curve
// is a node known by (A+2C)/4C; a point is a ratio X/Z with its node, its role
// and, for multiples of the kernel generator, the exponent of its order.
// Curves and points are recognised by their value: a curve is the codomain of
// the isogeny with a known kernel of order exactly 4 (or 3), a point is the
// image of a known point. When a function is entered, points it is given are
// replaced by unknowns with the same meaning, so that terms stay small.

type wkGen struct {
	id, side int
	node     int
	key      string
}

// wkPoint: a multiple of a kernel generator, or one of the points P, Q, P-Q of
// a side or their image.
type wkPoint struct {
	x, z    *felem
	node    int
	gen     *wkGen
	exp     int // its order is ell^exp
	side    int
	idx     int
	support map[string]bool
}

type wkNode struct {
	a24    *felem
	depth  [2]int
	parent int
	gen    *wkGen
	name   [2]string // key of the kernel of each side
}

type wkState struct {
	f        *field
	pkg      string
	own      int    // the only side allowed to walk, -1: both
	key      string // and its key
	points   []*wkPoint
	consts   []*wkPoint
	byAtom   map[string][]*wkPoint
	byID     map[[2]int]*wkPoint
	kernels  []*wkPoint
	nodes    []*wkNode
	nodeByID map[int]int
	gens     []*wkGen
	genPt    map[string]*wkPoint
	pow      map[string]*wkPoint
	renamed  map[*wkPoint]*wkPoint
	canon    map[string]*wkPoint
	fresh    int
}

const ptOff, ptWords = 192, 48 // bytes from X to Z, words of a point

func newWalk(f *field) *wkState {
	return &wkState{f: f, pkg: f.name[:4], own: -1, byAtom: map[string][]*wkPoint{}, byID: map[[2]int]*wkPoint{}, nodeByID: map[int]int{},
		genPt: map[string]*wkPoint{}, pow: map[string]*wkPoint{}, renamed: map[*wkPoint]*wkPoint{}, canon: map[string]*wkPoint{}}
}

// the degree of a side's isogenies is 2 or 3
func ellOf(side int) int { return 2 + side }

// stepOf is the exponent of the order of a kernel.
func stepOf(side int) int { return 2 - side }

// exps: p = 2^e2 3^e3 - 1 and the bit lengths of the secrets
func (w *wkState) exps(side int) (e, bits int) {
	switch w.pkg {
	case "p434":
		return [2]int{216, 137}[side], [2]int{216, 217}[side]
	case "p503":
		return [2]int{250, 159}[side], [2]int{250, 252}[side]
	}
	return [2]int{372, 239}[side], [2]int{372, 378}[side]
}

func (w *wkState) steps(side int) int {
	e, _ := w.exps(side)
	return e / stepOf(side)
}

func (w *wkState) times(x *felem, k int64) *felem {
	return w.f.mul(x, w.f.fconst(w.f.mod(big.NewInt(k)), bigZero))
}

func (w *wkState) div(a, b *felem) *felem { return w.f.mul(a, w.f.inv(b)) }

func (w *wkState) sub(a, b *felem) *felem { return w.f.add(a, b, true) }
func (w *wkState) add(a, b *felem) *felem { return w.f.add(a, b, false) }
func (w *wkState) sqr(a *felem) *felem    { return w.f.mul(a, a) }
func (w *wkState) one() *felem            { return w.f.elem(w.f.one(), w.f.one()) }

// a24 of (A : C), (A+2C : 4C) or (A+2C : A-2C)
func (w *wkState) a24(a, c *felem, form int) *felem {
	switch form {
	case 4:
	case 3:
		c = w.sub(a, c)
	default:
		a = w.add(a, w.times(c, 2))
		c = w.times(c, 4)
	}
	if isZeroElem(c) {
		return nil
	}
	return w.div(a, c)
}

// through is a24 of the curve on which x0, x1 and x2 are the x-coordinates of
// two points and of their difference.
func (w *wkState) through(x0, x1, x2 *felem) *felem {
	f := w.f
	pq, pr, qr := f.mul(x0, x1), f.mul(x0, x2), f.mul(x1, x2)
	n := w.sqr(w.sub(w.sub(w.sub(w.one(), pq), pr), qr))
	A := w.sub(w.sub(w.sub(w.div(n, w.times(f.mul(pq, x2), 4)), x0), x1), x2)
	return w.a24(A, w.one(), 0)
}

// codomain of the isogeny with kernel generated by k
func (w *wkState) codomain(k *wkPoint) *felem {
	x, z := k.x, k.z
	if k.gen.side == 0 {
		return w.div(w.sqr(w.sqr(x)), w.sqr(w.sqr(z)))
	}
	u, v := w.add(w.times(x, 3), z), w.sub(w.times(x, 3), z)
	plus := w.f.mul(w.f.mul(w.sqr(u), u), w.sub(x, z))
	minus := w.f.mul(w.f.mul(w.sqr(v), v), w.add(x, z))
	return w.a24(plus, minus, 3)
}

// image of p under the isogeny with kernel generated by k
func (w *wkState) image(p, k *wkPoint) (x, z *felem) {
	f := w.f
	s := w.sqr(w.sub(f.mul(p.x, k.x), f.mul(p.z, k.z)))
	t := w.sqr(w.sub(f.mul(p.x, k.z), f.mul(p.z, k.x)))
	if k.gen.side == 1 {
		return f.mul(p.x, s), f.mul(p.z, t)
	}
	m, q := w.times(f.mul(k.x, k.z), 2), w.add(w.sqr(k.x), w.sqr(k.z))
	return f.mul(f.mul(w.sub(f.mul(p.z, m), f.mul(p.x, q)), p.x), s), f.mul(f.mul(w.sub(f.mul(p.x, m), f.mul(p.z, q)), p.z), t)
}

// child is the node reached by the isogeny with kernel k: a cyclic group has one
// subgroup of each order.
func (w *wkState) child(k *wkPoint) int {
	for i, n := range w.nodes {
		if n.parent == k.node && n.gen == k.gen {
			return i
		}
	}
	p := w.nodes[k.node]
	n := &wkNode{a24: w.codomain(k), depth: p.depth, parent: k.node, gen: k.gen, name: p.name}
	n.depth[k.gen.side]++
	n.name[k.gen.side] = k.gen.key
	w.nodes = append(w.nodes, n)
	return len(w.nodes) - 1
}

// nodeName identifies a curve up to isomorphism by the kernel that leads to it.
func (w *wkState) nodeName(n int) string {
	d := w.nodes[n]
	return fmt.Sprintf("%d:%x|%d:%x", d.depth[0], d.name[0], d.depth[1], d.name[1])
}

func (w *wkState) nodeOf(a24 *felem) int {
	if a24 == nil {
		return -1
	}
	if n, ok := w.nodeByID[a24.id]; ok {
		return n
	}
	n := w.nodeOf1(a24)
	if n >= 0 {
		w.nodeByID[a24.id] = n
	}
	return n
}

func (w *wkState) nodeOf1(a24 *felem) int {
	for i := len(w.nodes) - 1; i >= 0; i-- {
		if w.f.equal(w.nodes[i].a24, a24) {
			return i
		}
	}
	for i := len(w.kernels) - 1; i >= 0; i-- {
		if k := w.kernels[i]; w.f.equal(w.codomain(k), a24) {
			return w.child(k)
		}
	}
	set := map[string]bool{}
	w.f.support(a24, set)
	for n := range w.nodes {
		for side := 0; side < 2; side++ {
			p, q, r := w.canon[w.imgName(n, side, 0)], w.canon[w.imgName(n, side, 1)], w.canon[w.imgName(n, side, 2)]
			if p == nil || q == nil || r == nil || !subset(p.support, set) || !subset(q.support, set) || !subset(r.support, set) {
				continue
			}
			if w.f.equal(w.through(p.x, q.x, r.x), a24) {
				return n
			}
		}
	}
	return -1
}

func (w *wkState) isKernel(p *wkPoint) bool { return p.gen != nil && p.exp == stepOf(p.gen.side) }

func (w *wkState) same(x, z, u, v *felem) bool {
	return x == u && z == v || w.f.equal(w.f.mul(x, v), w.f.mul(u, z))
}

func (f *field) support(e *felem, set map[string]bool) {
	for _, p := range []poly{e.num, e.den} {
		for _, t := range p {
			for i := 0; i+8 <= len(t.key); i += 8 {
				set[t.key[i:i+4]] = true
			}
		}
	}
}

func subset(s, set map[string]bool) bool {
	for k := range s {
		if !set[k] {
			return false
		}
	}
	return true
}

func (w *wkState) addPoint(p *wkPoint) *wkPoint {
	p.support = map[string]bool{}
	w.f.support(p.x, p.support)
	w.f.support(p.z, p.support)
	w.points = append(w.points, p)
	if len(p.support) == 0 {
		w.consts = append(w.consts, p)
	}
	for a := range p.support {
		w.byAtom[a] = append(w.byAtom[a], p)
	}
	w.byID[[2]int{p.x.id, p.z.id}] = p
	if w.isKernel(p) {
		w.kernels = append(w.kernels, p)
	}
	return p
}

// find identifies the point x : z. A point that was not known before is the
// image of a known one.
func (w *wkState) find(x, z *felem) *wkPoint {
	if isZeroElem(z) {
		return nil
	}
	if p := w.byID[[2]int{x.id, z.id}]; p != nil {
		return p
	}
	set := map[string]bool{}
	w.f.support(x, set)
	w.f.support(z, set)
	var cand []*wkPoint
	seen := map[*wkPoint]bool{}
	add := func(p *wkPoint) {
		if !seen[p] && subset(p.support, set) {
			seen[p] = true
			cand = append(cand, p)
		}
	}
	for a := range set {
		for _, p := range w.byAtom[a] {
			add(p)
		}
	}
	for _, p := range w.consts {
		add(p)
	}
	known := func(p *wkPoint) *wkPoint {
		return w.addPoint(&wkPoint{x: x, z: z, node: p.node, gen: p.gen, exp: p.exp, side: p.side, idx: p.idx})
	}
	for _, p := range cand {
		if w.same(x, z, p.x, p.z) {
			return known(p)
		}
	}
	for _, k := range cand {
		if !w.isKernel(k) {
			continue
		}
		for _, p := range cand {
			if p == k || p.node != k.node {
				continue
			}
			u, v := w.image(p, k)
			if w.same(x, z, u, v) {
				q := known(p)
				q.node = w.child(k)
				if q.gen == k.gen && q.gen != nil {
					if q.exp -= stepOf(q.gen.side); q.exp < 0 {
						q.exp = 0
					}
					if w.isKernel(q) {
						w.kernels = append(w.kernels, q)
					}
				}
				return q
			}
		}
	}
	return nil
}

// unknown is a new name for p.
func (w *wkState) unknown(p wkPoint) *wkPoint {
	w.fresh++
	p.x, p.z = w.f.atom(fmt.Sprintf("X%d", w.fresh)), w.f.atom(fmt.Sprintf("Z%d", w.fresh))
	return w.addPoint(&p)
}

func (w *wkState) rename(p *wkPoint) *wkPoint {
	q := w.renamed[p]
	if q == nil {
		q = w.unknown(*p)
		w.renamed[p] = q
	}
	return q
}

func (w *wkState) imgName(n, side, idx int) string {
	return fmt.Sprintf("x%d.%d@%s", side, idx, w.nodeName(n))
}

// canonical is the name of the affine x-coordinate x of an image of a point of
// one of the sides, or x itself.
func (w *wkState) canonical(x *felem) *felem {
	if len(x.num) <= 1 && len(x.den) <= 1 {
		return x
	}
	p := w.find(x, w.one())
	if p == nil || p.gen != nil {
		return x
	}
	nm := w.imgName(p.node, p.side, p.idx)
	c := w.canon[nm]
	if c == nil {
		c = w.addPoint(&wkPoint{x: w.f.atom(nm), z: w.one(), node: p.node, side: p.side, idx: p.idx})
		w.canon[nm] = c
	}
	return c.x
}

// wkElem reads one element of the quadratic extension.
func (in *Interp) wkElem(st *State, v Val) (*felem, bool) {
	f := in.walk.f
	ws, ok := in.elemWords(st, v, 2, f.words, int64(f.stride))
	if !ok {
		return nil, false
	}
	for _, t := range ws {
		if t.k == KITE {
			return nil, false
		}
	}
	return f.load(ws, single), true
}

func (in *Interp) wkPair(st *State, v Val) (x, z *felem, ok bool) {
	x, ok1 := in.wkElem(st, v)
	z, ok2 := in.wkElem(st, fieldAt(v, ptOff))
	return x, z, ok1 && ok2
}

func (in *Interp) wkPut(st *State, v Val, x, z *felem) {
	f := in.walk.f
	in.putWords(st, v, f.store(x, single), 2, int64(f.stride))
	in.putWords(st, fieldAt(v, ptOff), f.store(z, single), 2, int64(f.stride))
}

func isNamed(t types.Type, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == name
}

// walkEntry renames the points that a function is given.
func (in *Interp) walkEntry(st *State, fn *ssa.Function, as []Val) {
	w := in.walk
	if fn.Pkg == nil || fn.Pkg.Pkg.Name() != w.pkg || len(fn.Params) != len(as) {
		return
	}
	for i, p := range fn.Params {
		pt, ok := p.Type().Underlying().(*types.Pointer)
		if !ok {
			continue
		}
		if q, ok := as[i].(Ptr); !ok || q.o == nil {
			continue
		}
		if at, ok := pt.Elem().Underlying().(*types.Array); ok && at.Len() == 3 && isNamed(at.Elem(), "Fp2") {
			for j := int64(0); j < 3; j++ {
				v := fieldAt(as[i], j*ptOff)
				if e, ok := in.wkElem(st, v); ok {
					if c := w.canonical(e); c != e {
						in.putWords(st, v, w.f.store(c, single), 2, int64(w.f.stride))
					}
				}
			}
			continue
		}
		if !isNamed(pt.Elem(), "ProjectivePoint") {
			continue
		}
		x, z, ok := in.wkPair(st, as[i])
		if !ok || len(x.num) <= 1 && len(z.num) <= 1 {
			continue
		}
		if p := w.find(x, z); p != nil {
			q := w.rename(p)
			in.wkPut(st, as[i], q.x, q.z)
		}
	}
}

// wkCheck reports a step whose operand is not what the walk needs, unless the
// analysis itself gave up on large terms.
func (in *Interp) wkCheck(name string, ok bool, detail string) {
	if !ok && in.walk.f.tooBig {
		in.imprecise("polynomial too large in the isogeny walk")
		panic(csStop{})
	}
	in.csCheck(name, ok, detail)
}

func wkStr(f *field, e *felem) string {
	s := f.String(e)
	if len(s) > 200 {
		s = s[:200] + "..."
	}
	return s
}

func (in *Interp) walkPrim(fn *ssa.Function) Model {
	w := in.walk
	if w == nil || fn.Pkg.Pkg.Name() != w.pkg {
		return nil
	}
	name := fn.Name()
	f := w.f
	lose := func(what string) {
		in.csFail("the walk depends on the keys through the kernel generator alone", "an operand of "+what+" depends on a decision taken before")
	}
	point := func(st *State, v Val, what string) *wkPoint {
		x, z, ok := in.wkPair(st, v)
		if !ok {
			lose(what)
		}
		p := w.find(x, z)
		in.wkCheck(what+" is given a point of the walk", p != nil, "X = "+wkStr(f, x))
		return p
	}
	curve := func(st *State, v Val, form int, what string) int {
		a, c, ok := in.wkPair(st, v)
		if !ok {
			lose(what)
		}
		n := w.nodeOf(w.a24(a, c, form))
		in.wkCheck(what+" is given a curve of the walk", n >= 0, "the curve is neither the starting curve nor the codomain of an isogeny whose kernel has the right order")
		return n
	}
	switch name {
	case "Pow2k", "Pow3k":
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			in.primCalls[f.name+"."+name]++
			k, ok := a[2].(*Term)
			if !ok || k.k != KConst {
				lose(name)
			}
			side, form := 0, 4
			if name == "Pow3k" {
				side, form = 1, 3
			}
			n := curve(st, a[1], form, name)
			p := point(st, a[0], name)
			in.wkCheck(name+" uses the curve of its point", p.node == n, fmt.Sprintf("point on curve %v of the walk, operation on curve %v", w.nodes[p.node].depth, w.nodes[n].depth))
			in.wkCheck("only multiples of the kernel generator are multiplied", p.gen != nil && side == p.gen.side, name+" of a point to be mapped")
			in.wkCheck(name+" does not reach the point at infinity", k.c < uint64(p.exp), fmt.Sprintf("point of order %d^%d, multiplied by %d^%d", ellOf(side), p.exp, ellOf(side), k.c))
			nm := fmt.Sprintf("%d.%d.%d", p.x.id, p.z.id, k.c)
			q := w.pow[nm]
			if q == nil {
				q = w.unknown(wkPoint{node: n, gen: p.gen, exp: p.exp - int(k.c)})
				w.pow[nm] = q
			}
			in.wkPut(st, a[0], q.x, q.z)
			return nil, st
		}
	case "ScalarMul3Pt":
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			in.primCalls[f.name+"."+name]++
			n := curve(st, a[0], 0, name)
			in.wkCheck("the kernel generator lies on the starting curve", w.own < 0 || n == 0, fmt.Sprintf("curve %v of the walk", w.nodes[n].depth))
			side := w.own
			for i, r := range []string{"P", "Q", "P-Q"} {
				p := point(st, a[1+i], name)
				if side < 0 {
					side = p.side
				}
				in.wkCheck("the kernel generator comes from the base points P, Q and P-Q", p.gen == nil && p.node == n && p.side == side && p.idx == i, fmt.Sprintf("argument %s is point %d of side %d", r, p.idx, p.side))
			}
			e, bits := w.exps(side)
			nb, ok := a[4].(*Term)
			s, ok2 := a[5].(Slice)
			if !ok || !ok2 || nb.k != KConst {
				lose(name)
			}
			in.wkCheck("every bit of the private key is used", int(nb.c) == bits, fmt.Sprintf("%d bits, want %d", nb.c, bits))
			in.wkCheck("the scalar holds that many bits", s.o != nil && s.len.k == KConst && s.len.c >= (nb.c+7)>>3, "")
			key, okk := in.wkKey(st, s, bits)
			if !okk {
				lose(name)
			}
			in.wkCheck("the scalar is the private key", w.own < 0 || key == w.key, "")
			nm := fmt.Sprintf("%d.%d.%s", n, side, key)
			q := w.genPt[nm]
			if q == nil {
				g := &wkGen{id: len(w.gens), side: side, node: n, key: key}
				w.gens = append(w.gens, g)
				q = w.unknown(wkPoint{node: n, gen: g, exp: e})
				w.genPt[nm] = q
			}
			t := fn.Signature.Results().At(0).Type()
			g := make([]Val, ptWords)
			for i := range g {
				g[i] = Const(64, 0)
			}
			for j, e := range []*felem{q.x, q.z} {
				ws := f.store(e, single)
				for i, x := range ws {
					g[24*j+i/f.words*f.stride+i%f.words] = x
				}
			}
			return Agg{t, g}, st
		}
	case "Jinvariant":
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			in.primCalls[f.name+"."+name]++
			n := curve(st, a[0], 0, name)
			in.putWords(st, a[1], f.store(f.atom("j@"+w.nodeName(n)), single), 2, int64(f.stride))
			return nil, st
		}
	case "FromMontgomery":
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			in.primCalls[f.name+"."+name]++
			e, ok := in.wkElem(st, a[1])
			if !ok {
				lose(name)
			}
			in.putWords(st, a[0], w.plain(w.canonical(e)), 2, int64(f.stride))
			return nil, st
		}
	case "ToMontgomery":
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			in.primCalls[f.name+"."+name]++
			ws, ok := in.elemWords(st, a[1], 2, f.words, int64(f.stride))
			if !ok {
				lose(name)
			}
			in.putWords(st, a[0], f.store(w.fromPlain(ws), single), 2, int64(f.stride))
			return nil, st
		}
	case "Fp2Batch3Inv":
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			in.primCalls[f.name+"."+name]++
			var es [3]*felem
			for i := range es {
				e, ok := in.wkElem(st, a[i])
				if !ok {
					lose(name)
				}
				es[i] = e
			}
			for i, e := range es {
				in.putWords(st, a[3+i], f.store(f.inv(e), single), 2, int64(f.stride))
			}
			return nil, st
		}
	}
	return nil
}

// plain is the canonical form of e out of Montgomery representation.
func (w *wkState) plain(e *felem) []*Term {
	var ws []*Term
	n := w.f.words
	top := uint64(1)<<uint(w.f.p.BitLen()-64*(n-1)) - 1
	for i := 0; i < 2*n; i++ {
		t := App(64, "plain:"+w.f.name, Const(64, uint64(e.id)), Const(64, uint64(i)))
		if i%n == n-1 {
			t = BAnd(t, Const(64, top))
		}
		ws = append(ws, t)
	}
	return ws
}

func (w *wkState) fromPlain(ws []*Term) *felem {
	if allConst(ws) {
		n := len(ws) / 2
		return w.f.fconst(w.f.mod(wordsToBig(ws[:n])), w.f.mod(wordsToBig(ws[n:])))
	}
	if t := ws[0]; t.k == KApp && t.name == "plain:"+w.f.name {
		e := w.f.list[t.args[0].c]
		if wordsKey(w.plain(e)) == wordsKey(ws) {
			return e
		}
	}
	return w.f.atom("mont:" + wordsKey(ws))
}

// wkKey identifies the first bits of a scalar.
func (in *Interp) wkKey(st *State, s Slice, bits int) (string, bool) {
	var ws []*Term
	for i := 0; i < (bits+7)/8; i++ {
		b, ok := in.load(st, Ptr{s.o, Add(s.off, Const(64, uint64(i)))}, types.Typ[types.Byte]).(*Term)
		if !ok {
			return "", false
		}
		if r := bits - 8*i; r < 8 {
			b = BAnd(b, Const(8, 1<<uint(r)-1))
		}
		ws = append(ws, b)
	}
	return wordsKey(ws), true
}

func init() {
	rt := func(s string) string { return rtPath + "." + s }
	def := func(n string, f func(in *Interp, st *State, a []Val) Val) {
		stdModels[rt(n)] = func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return f(in, st, a), st
		}
	}
	ptr := func(v Val) Val {
		if i, ok := v.(Iface); ok {
			return i.v
		}
		return v
	}
	elem := func(in *Interp, st *State, v Val) *felem {
		e, ok := in.wkElem(st, ptr(v))
		if !ok {
			in.imprecise("field element of the walk not resolved")
			panic(csStop{})
		}
		return e
	}
	// Walk(curve): walks start from this curve.
	def("Walk", func(in *Interp, st *State, a []Val) Val {
		w := newWalk(in.curField())
		in.walk = w
		in.modelCache = map[*ssa.Function]Model{}
		v := ptr(a[0])
		n := w.a24(elem(in, st, v), elem(in, st, fieldAt(v, ptOff)), 0)
		if n == nil {
			in.imprecise("Walk")
			panic(csStop{})
		}
		w.nodes = []*wkNode{{a24: n, parent: -1}}
		return nil
	})
	// WalkThrough: they start from the curve through three points instead.
	def("WalkThrough", func(in *Interp, st *State, a []Val) Val {
		w := in.walk
		w.nodes = []*wkNode{{a24: w.through(elem(in, st, a[0]), elem(in, st, a[1]), elem(in, st, a[2])), parent: -1}}
		return nil
	})
	// WalkOwn: only this side walks, with this key.
	def("WalkOwn", func(in *Interp, st *State, a []Val) Val {
		w := in.walk
		side, _ := constArg(a[0])
		w.own = int(side)
		_, bits := w.exps(w.own)
		s, ok := a[1].(Slice)
		if ok {
			w.key, ok = in.wkKey(st, s, bits)
		}
		if !ok {
			in.imprecise("WalkOwn")
			panic(csStop{})
		}
		return nil
	})
	// WalkPoint: x belongs to P, Q or P-Q (0, 1, 2) of a side.
	def("WalkPoint", func(in *Interp, st *State, a []Val) Val {
		w := in.walk
		side, _ := constArg(a[0])
		idx, _ := constArg(a[1])
		w.addPoint(&wkPoint{x: elem(in, st, a[2]), z: w.one(), side: int(side), idx: int(idx)})
		return nil
	})
	// WalkImage: x is the affine x-coordinate of the image of P, Q or P-Q of a
	// side at the end of the other side's walk.
	def("WalkImage", func(in *Interp, st *State, a []Val) Val {
		w := in.walk
		side, _ := constArg(a[1])
		idx, _ := constArg(a[2])
		e := elem(in, st, a[0])
		p := w.find(e, w.one())
		in.wkCheck("the result is the image of a point", p != nil, wkStr(w.f, e))
		in.wkCheck("it is the image of the right point", p.gen == nil && p.side == int(side) && p.idx == int(idx), fmt.Sprintf("point %d of side %d, want %d of %d", p.idx, p.side, idx, side))
		d := w.nodes[p.node].depth[1-side]
		in.wkCheck("it is the image under the whole isogeny", d == w.steps(int(1-side)), fmt.Sprintf("%d of %d steps", d, w.steps(int(1-side))))
		return nil
	})
	// WalkJ: word k of the j-invariant of the last curve of the own walk, as
	// integers below p.
	def("WalkJ", func(in *Interp, st *State, a []Val) Val {
		w := in.walk
		k, _ := constArg(a[0])
		last := -1
		for i, n := range w.nodes {
			if n.depth[w.own] == w.steps(w.own) {
				last = i
			}
		}
		in.wkCheck("the walk takes all its steps", last >= 0, fmt.Sprintf("%d curves of %d", len(w.nodes), w.steps(w.own)+1))
		ws := w.plain(w.f.atom("j@" + w.nodeName(last)))
		if int(k) >= len(ws) {
			return Const(64, 0)
		}
		return ws[k]
	})
}
