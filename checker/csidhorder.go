package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Mode "csidh.order", on top of "csidh.field": the group-order domain for the
// CSIDH algorithms. A curve is an abstract node of the isogeny graph, known by
// its coefficient ratio a/c and by the isogeny steps that lead to it. A point
// is a ratio X/Z with its curve, the random draw it comes from, and its order.
// What random points a run meets is enumerated by the harness: for each draw
// whether the sampled integer is below p, on which side (curve or twist) the
// point lies, which primes are missing from its order and whether its order has
// a factor foreign to p+1. Scalar multiplication, doubling and isogenies act on
// orders exactly.

type csDraw struct {
	ok             bool
	side           int
	missLo, missHi int
	extra          bool
	seen           bool
	node           int // curve on which the point was first used; -1: none
}

type csPoint struct {
	x, z  *felem
	node  int
	draw  int
	order *big.Int
}

type csNode struct {
	ratio     *felem
	plus, neg [128]int
}

type csOrder struct {
	rng      string
	draws    []*csDraw
	declared int            // by the harness; the ones after are of full order
	words    map[string]int // words of a draw -> index
	atoms    []*felem       // x of draw k
	next     int
	points   []*csPoint
	nodes    []*csNode
	primes   []uint64
	fresh    int
}

func (in *Interp) csOrd() *csOrder {
	if in.cso == nil {
		o := &csOrder{rng: "rng", words: map[string]int{}}
		for i := int64(3); i <= 373; i += 2 {
			if big.NewInt(i).ProbablyPrime(20) {
				o.primes = append(o.primes, uint64(i))
			}
		}
		o.primes = append(o.primes, 587)
		in.cso = o
	}
	return in.cso
}

func (in *Interp) csFail(name, detail string) {
	in.addObl(Obligation{Harness: in.harness, Name: name, OK: false, Where: relPos(in.fset.Position(in.curPos)), Detail: detail})
	panic(csStop{})
}

// csStop ends the analysis of a harness at the first step whose meaning is lost.
type csStop struct{}

func (in *Interp) csOK(name string) {
	in.addObl(Obligation{Harness: in.harness, Name: name, OK: true, Where: relPos(in.fset.Position(in.curPos))})
}

func (in *Interp) csCheck(name string, ok bool, detail string) bool {
	if ok {
		in.csOK(name)
	} else {
		in.csFail(name, detail)
	}
	return ok
}

func wordsKey(ws []*Term) string {
	b := []byte{}
	for _, t := range ws {
		b = put32(b, t.id)
	}
	return string(b)
}

// draw returns the k-th draw: 64 consecutive bytes of the random source, taken
// as a little-endian integer of 511 bits.
func (o *csOrder) draw(f *field, k int) *csDraw {
	for len(o.draws) <= k {
		o.draws = append(o.draws, &csDraw{ok: true, side: len(o.draws) & 1, node: -1})
	}
	for len(o.atoms) <= k {
		i := len(o.atoms)
		ws := make([]*Term, 8)
		for j := range ws {
			w := Const(64, 0)
			for b := 0; b < 8; b++ {
				w = BOr(w, Shl(Zext(rngByte(o.rng, Const(64, uint64(64*i+8*j+b))), 64), uint(8*b)))
			}
			if j == 7 {
				w = BAnd(w, Const(64, 1<<63-1))
			}
			ws[j] = w
		}
		o.words[wordsKey(ws)] = i
		o.atoms = append(o.atoms, f.load(ws, single))
	}
	return o.draws[k]
}

func (o *csOrder) drawOf(f *field, ws []*Term) int {
	o.draw(f, o.next+1)
	if k, ok := o.words[wordsKey(ws)]; ok {
		return k
	}
	return -1
}

func isZeroElem(e *felem) bool { return e.exp == nil && len(e.num) == 0 }

func (o *csOrder) nodeOf(f *field, a, c *felem) int {
	if isZeroElem(c) {
		return -1
	}
	r := a
	if c != f.elem(f.one(), f.one()) {
		r = f.mul(a, f.inv(c))
	}
	for i := len(o.nodes) - 1; i >= 0; i-- {
		if o.nodes[i].ratio == r {
			return i
		}
	}
	for i := len(o.nodes) - 1; i >= 0; i-- {
		if f.equal(o.nodes[i].ratio, r) {
			return i
		}
	}
	return -1
}

// point identifies (x : z) on a curve; ok is false when nothing is known.
// A nil point with ok is the point at infinity.
func (in *Interp) csPoint(f *field, x, z *felem, node int) (*csPoint, bool) {
	o := in.csOrd()
	if isZeroElem(z) {
		return nil, true
	}
	for i := len(o.points) - 1; i >= 0; i-- {
		p := o.points[i]
		if p.x == x && p.z == z {
			return p, true
		}
	}
	r := f.mul(x, f.inv(z))
	for i := len(o.points) - 1; i >= 0; i-- {
		p := o.points[i]
		if f.equal(r, f.mul(p.x, f.inv(p.z))) {
			return p, true
		}
	}
	for k, a := range o.atoms {
		if f.equal(r, a) {
			d := o.draws[k]
			in.csCheck("only accepted random elements are used as points", d.ok && d.seen, fmt.Sprintf("draw %d was rejected or never compared with p", k))
			if d.node < 0 {
				d.node = node
			}
			p := &csPoint{x: x, z: z, node: d.node, draw: k, order: o.fullOrder(d)}
			o.points = append(o.points, p)
			return p, true
		}
	}
	return nil, false
}

func (o *csOrder) fullOrder(d *csDraw) *big.Int {
	n := big.NewInt(4)
	for i, l := range o.primes {
		if i >= d.missLo && i < d.missHi {
			continue
		}
		n.Mul(n, new(big.Int).SetUint64(l))
	}
	if d.extra {
		n.Mul(n, big.NewInt(1000003))
	}
	return n
}

func (in *Interp) csElem(f *field, st *State, v Val) (*felem, bool) {
	ws, ok := in.elemWords(st, v, 1, 8, 0)
	if !ok {
		return nil, false
	}
	for _, t := range ws {
		if t.k == KITE {
			return nil, false
		}
	}
	return f.load(ws, single), true
}

func fieldAt(v Val, off int64) Val {
	p, _ := ptrBase(v)
	if p.o == nil {
		return v
	}
	return Ptr{p.o, Add(p.off, Const(64, uint64(off)))}
}

func (in *Interp) csPair(f *field, st *State, v Val) (x, z *felem, ok bool) {
	x, ok1 := in.csElem(f, st, v)
	z, ok2 := in.csElem(f, st, fieldAt(v, 64))
	return x, z, ok1 && ok2
}

func (in *Interp) csPut(f *field, st *State, v Val, x, z *felem) {
	in.putWords(st, v, f.store(x, single), 1, 0)
	in.putWords(st, fieldAt(v, 64), f.store(z, single), 1, 0)
}

// multiply writes the multiple of P by k to v.
func (in *Interp) csMultiply(f *field, st *State, out Val, p *csPoint, node int, k *big.Int) {
	o := in.csOrd()
	o.fresh++
	x := f.atom(fmt.Sprintf("X%d", o.fresh))
	zero := f.fconst(bigZero, bigZero)
	if p == nil {
		in.csPut(f, st, out, x, zero)
		return
	}
	ord := new(big.Int).Div(p.order, new(big.Int).GCD(nil, nil, p.order, k))
	if ord.Cmp(bigOne) == 0 {
		in.csPut(f, st, out, x, zero)
		return
	}
	z := f.atom(fmt.Sprintf("Z%d", o.fresh))
	o.points = append(o.points, &csPoint{x: x, z: z, node: p.node, draw: p.draw, order: ord})
	in.csPut(f, st, out, x, z)
}

func (in *Interp) csOrderPrim(f *field, fn *ssa.Function) (Model, bool) {
	name := fn.Name()
	bad := func(st *State, a []Val, what string) (Val, *State) {
		in.imprecise("unresolved operand of " + what)
		for _, v := range a {
			if p, ok := v.(Ptr); ok && p.o != nil {
				in.havocPtr(st, v)
			}
		}
		return freshUnknown(resultType(fn.Signature), what), st
	}
	switch name {
	case "isLess":
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			xs, ok1 := in.elemWords(st, a[0], 1, 8, 0)
			ys, ok2 := in.elemWords(st, a[1], 1, 8, 0)
			if !ok1 || !ok2 {
				return bad(st, a, name)
			}
			cx, cy := allConst(xs), allConst(ys)
			if cx && cy {
				return Const(1, b2u(wordsToBig(xs).Cmp(wordsToBig(ys)) < 0)), st
			}
			o := in.csOrd()
			if cy && wordsToBig(ys).Cmp(f.p) == 0 {
				if k := o.drawOf(f, xs); k >= 0 {
					d := o.draw(f, k)
					in.csCheck("random elements are drawn one after the other", k == o.next, fmt.Sprintf("element %d is compared, %d is next", k, o.next))
					o.next = k + 1
					d.seen = true
					in.csCheck("random elements are used", k < o.declared+150, "150 elements of full order on either side did not suffice")
					return Const(1, b2u(d.ok)), st
				}
				for _, t := range xs {
					if hasRng(t) {
						in.csFail("a random element is a fresh 511-bit little-endian integer", "compared with p: "+tstr(xs[0], 4))
						return App(1, "isLess", append(append([]*Term{}, xs...), ys...)...), st
					}
				}
			}
			if in.primCalls["isLess"]++; in.primCalls["isLess"] > 200 {
				in.csFail("comparisons end", "more than 200 undecided comparisons")
			}
			return App(1, "isLess", append(append([]*Term{}, xs...), ys...)...), st
		}, true
	case "isZero":
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			e, ok := in.csElem(f, st, a[0])
			if !ok {
				return bad(st, a, name)
			}
			if isZeroElem(e) {
				return True, st
			}
			for _, p := range in.csOrd().points {
				if p.z == e {
					return False, st
				}
			}
			if e.exp == nil && len(e.num) == 1 && len(e.den) == 1 {
				if e.num[0].key == "" {
					return False, st
				}
			}
			in.csFail("only the Z coordinate of a known point is tested for zero", "tested: "+f.String(e))
			return in.unknownBool("isZero"), st
		}, true
	case "isNonQuadRes":
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			e, ok := in.csElem(f, st, a[0])
			if !ok {
				return bad(st, a, name)
			}
			o := in.csOrd()
			for pass := 0; pass < 2; pass++ {
				last := true
				for k := len(o.atoms) - 1; k >= 0; k-- {
					if !o.draws[k].seen || !o.draws[k].ok || pass == 1 && !last {
						continue
					}
					last = false
					x := o.atoms[k]
					for n := len(o.nodes) - 1; n >= 0; n-- {
						t := f.add(f.add(f.mul(x, x), f.mul(o.nodes[n].ratio, x), false), f.elem(f.one(), f.one()), false)
						if f.equal(e, f.mul(t, x)) {
							d := o.draws[k]
							in.csCheck("the side of a point is tested once, on the curve it is used on", d.node < 0 || d.node == n, fmt.Sprintf("draw %d: curve %d, then %d", k, d.node, n))
							d.node = n
							return Const(64, uint64(d.side)), st
						}
						if pass == 0 && n < len(o.nodes)-2 {
							break
						}
					}
				}
			}
			in.csFail("the residue test decides the side of a random point", "tested: "+f.String(e))
			return in.unknownBool("isNonQuadRes"), st
		}, true
	case "xMul", "xDbl":
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			in.primCalls["csidh."+name]++
			x, z, ok1 := in.csPair(f, st, a[1])
			ca, cc, ok2 := in.csPair(f, st, a[2])
			k := big.NewInt(2)
			ok3 := true
			if name == "xMul" {
				ws, ok := in.elemWords(st, a[3], 1, 8, 0)
				ok3 = ok && allConst(ws)
				if ok3 {
					k = wordsToBig(ws)
				}
			}
			if !ok1 || !ok2 || !ok3 {
				return bad(st, a, name)
			}
			node := in.csOrd().nodeOf(f, ca, cc)
			in.csCheck(name+" works on a known curve", node >= 0, f.String(ca)+" : "+f.String(cc))
			in.csCheck(name+" has a positive multiplier", k.Sign() > 0, "multiplier 0")
			p, ok := in.csPoint(f, x, z, node)
			in.csCheck(name+" works on a known point", ok, f.String(x)+" : "+f.String(z))
			if p != nil {
				in.csCheck(name+" uses the curve of its point", p.node == node, fmt.Sprintf("point on curve %d, operation on curve %d", p.node, node))
			}
			if k.Sign() == 0 {
				k = bigOne
			}
			in.csMultiply(f, st, a[0], p, node, k)
			return nil, st
		}, true
	case "xIso":
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			in.primCalls["csidh.xIso"]++
			ix, iz, ok1 := in.csPair(f, st, a[0])
			ca, cc, ok2 := in.csPair(f, st, a[1])
			kx, kz, ok3 := in.csPair(f, st, a[2])
			l, ok4 := a[3].(*Term)
			if !ok1 || !ok2 || !ok3 || !ok4 || l.k != KConst {
				return bad(st, a, name)
			}
			o := in.csOrd()
			node := o.nodeOf(f, ca, cc)
			idx := -1
			for i, q := range o.primes {
				if q == l.c {
					idx = i
				}
			}
			in.csCheck("an isogeny starts from a known curve", node >= 0, f.String(ca)+" : "+f.String(cc))
			in.csCheck("the degree of an isogeny is one of the primes", idx >= 0, fmt.Sprintf("degree %d", l.c))
			kp, okk := in.csPoint(f, kx, kz, node)
			in.csCheck("the kernel is a known point of order exactly the degree", okk && kp != nil && kp.order.Cmp(new(big.Int).SetUint64(l.c)) == 0, fmt.Sprintf("kernel %v, degree %d", kp, l.c))
			if kp == nil || node < 0 || idx < 0 {
				return bad(st, a[:2], name)
			}
			in.csCheck("the kernel lies on the curve the isogeny starts from", kp.node == node, fmt.Sprintf("kernel on curve %d, isogeny of curve %d", kp.node, node))
			ip, oki := in.csPoint(f, ix, iz, node)
			in.csCheck("the point to map is known and lies on the same curve", oki && (ip == nil || ip.node == node), f.String(ix)+" : "+f.String(iz))
			o.fresh++
			na, nc := f.atom(fmt.Sprintf("A%d", o.fresh)), f.atom(fmt.Sprintf("C%d", o.fresh))
			n := &csNode{plus: o.nodes[node].plus, neg: o.nodes[node].neg, ratio: f.mul(na, f.inv(nc))}
			if o.draws[kp.draw].side == 0 {
				n.plus[idx]++
			} else {
				n.neg[idx]++
			}
			o.nodes = append(o.nodes, n)
			in.putWords(st, a[1], f.store(na, single), 1, 0)
			in.putWords(st, fieldAt(a[1], 64), f.store(nc, single), 1, 0)
			nx := f.atom(fmt.Sprintf("X%d", o.fresh))
			if ip == nil {
				in.csPut(f, st, a[0], nx, f.fconst(bigZero, bigZero))
				return nil, st
			}
			in.csCheck("the mapped point and the kernel come from the same draw", ip.draw == kp.draw, fmt.Sprintf("draws %d and %d", ip.draw, kp.draw))
			ord := new(big.Int).Div(ip.order, new(big.Int).GCD(nil, nil, ip.order, new(big.Int).SetUint64(l.c)))
			if ord.Cmp(bigOne) == 0 {
				in.csPut(f, st, a[0], nx, f.fconst(bigZero, bigZero))
				return nil, st
			}
			nz := f.atom(fmt.Sprintf("Z%d", o.fresh))
			o.points = append(o.points, &csPoint{x: nx, z: nz, node: len(o.nodes) - 1, draw: ip.draw, order: ord})
			in.csPut(f, st, a[0], nx, nz)
			return nil, st
		}, true
	}
	return nil, false
}

func allConst(ws []*Term) bool {
	for _, t := range ws {
		if t.k != KConst {
			return false
		}
	}
	return true
}

func hasRng(t *Term) bool {
	sup := map[*Term]bool{}
	Support(t, sup, map[*Term]bool{})
	for s := range sup {
		if len(s.name) > 4 && s.name[:4] == "rng:" {
			return true
		}
	}
	return false
}

func init() {
	rt := func(s string) string { return rtPath + "." + s }
	def := func(n string, f func(in *Interp, st *State, a []Val) Val) {
		stdModels[rt(n)] = func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return f(in, st, a), st
		}
	}
	// Draw(name of the source, below p, side, missing primes [lo, hi), foreign factor)
	def("Draw", func(in *Interp, st *State, a []Val) Val {
		o := in.csOrd()
		o.rng = strArg(a[0])
		side, _ := constArg(a[2])
		lo, _ := constArg(a[3])
		hi, _ := constArg(a[4])
		o.draws = append(o.draws, &csDraw{ok: a[1] == Val(True), side: int(side), missLo: int(lo), missHi: int(hi), extra: a[5] == Val(True), node: -1})
		o.declared = len(o.draws)
		return nil
	})
	def("DrawsUsed", func(in *Interp, st *State, a []Val) Val { return Const(64, uint64(in.csOrd().next)) })
	def("CurveBase", func(in *Interp, st *State, a []Val) Val {
		o, f := in.csOrd(), in.fields["csidh.field"]
		fc, ok := a[0].(Iface)
		if f == nil || !ok {
			in.imprecise("CurveBase")
			return nil
		}
		e, ok := in.csElem(f, st, fc.v)
		if !ok {
			in.imprecise("CurveBase")
			return nil
		}
		o.nodes = []*csNode{{ratio: e}}
		return nil
	})
	// CurveSteps: net number of steps of degree primes[i] that lead to the
	// curve with this affine coefficient; 100 when it is not a known curve or
	// was reached by steps in both directions.
	// CurveNet: the same without the last condition.
	for _, nm := range []string{"CurveSteps", "CurveNet"} {
		nm := nm
		def(nm, func(in *Interp, st *State, a []Val) Val { return in.curveSteps(st, a, nm == "CurveNet") })
	}
	_ = types.Typ
}

func (in *Interp) curveSteps(st *State, a []Val, net bool) Val {
	o, f := in.csOrd(), in.fields["csidh.field"]
	fc, ok := a[0].(Iface)
	k, ok2 := constArg(a[1])
	if f == nil || !ok || !ok2 {
		in.imprecise("CurveSteps")
		return Const(64, 100)
	}
	e, ok := in.csElem(f, st, fc.v)
	n := -1
	if ok {
		n = o.nodeOf(f, e, f.elem(f.one(), f.one()))
	}
	if n < 0 {
		return Const(64, 100)
	}
	p, q := o.nodes[n].plus[k], o.nodes[n].neg[k]
	if !net && p != 0 && q != 0 {
		return Const(64, 100)
	}
	return Const(64, uint64(int64(p-q)))
}
