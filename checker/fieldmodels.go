package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Algebraic level: field primitives become operations on polynomial quotients.
//
//	csidh.field  mulRdc, addRdc, subRdc and exponentiation in GF(p)
//	pXXX.fp      the base-field primitives, FpX2 values being unreduced products
//	pXXX.fp2     add, sub, mul, sqr, inv and cswap of the quadratic extension

func fieldPrime(pkg string) *big.Int {
	pow := func(e2, e3 int64) *big.Int {
		x := new(big.Int).Exp(big.NewInt(3), big.NewInt(e3), nil)
		x.Lsh(x, uint(e2))
		return x.Sub(x, bigOne)
	}
	switch pkg {
	case "p434":
		return pow(216, 137)
	case "p503":
		return pow(250, 159)
	case "p751":
		return pow(372, 239)
	}
	// p = 4 * (3 * 5 * ... * 373) * 587 - 1
	x := big.NewInt(4 * 587)
	for i := int64(3); i <= 373; i += 2 {
		if big.NewInt(i).ProbablyPrime(20) {
			x.Mul(x, big.NewInt(i))
		}
	}
	return x.Sub(x, bigOne)
}

func fieldOfMode(m string) *field {
	pkg, lvl, ok := strings.Cut(m, ".")
	w, known := map[string]int{"csidh": 8, "p434": 7, "p503": 8, "p751": 12}[pkg]
	if !ok || !known || lvl != "field" && lvl != "fp" && lvl != "fp2" {
		return nil
	}
	return newField(m, fieldPrime(pkg), w, 12, lvl == "fp2", true)
}

// liftField evaluates f on args, case by case over the decisions in args.
func liftField(args []*Term, f func([]*Term) []*Term) []*Term {
	vs := gateVars(args)
	if len(vs) == 0 {
		return f(args)
	}
	v := vs[0]
	for _, x := range vs {
		if x.less(v) {
			v = x
		}
	}
	c := varNode(v)
	hi := make([]*Term, len(args))
	lo := make([]*Term, len(args))
	for i, a := range args {
		hi[i], lo[i] = cof(a, v)
	}
	h := liftField(hi, f)
	l := liftField(lo, f)
	for i := range h {
		h[i] = Ite(c, h[i], l[i])
	}
	return h
}

// elemWords reads the words of an element; n is 1 (one group) or 2 (Fp2).
func (in *Interp) elemWords(st *State, v Val, groups, words int, stride int64) ([]*Term, bool) {
	p, ok := ptrBase(v)
	if !ok {
		return nil, false
	}
	u64 := types.Typ[types.Uint64]
	var out []*Term
	for g := 0; g < groups; g++ {
		for i := 0; i < words; i++ {
			t, ok := in.load(st, Ptr{p.o, Add(p.off, Const(64, uint64(int64(g)*stride*8+int64(8*i))))}, u64).(*Term)
			if !ok {
				t = freshUnknown(u64, "word").(*Term)
			}
			out = append(out, t)
		}
	}
	return out, true
}

func (in *Interp) putWords(st *State, v Val, ws []*Term, groups int, stride int64) {
	p, _ := ptrBase(v)
	n := len(ws) / groups
	for i, t := range ws {
		g, k := int64(i/n), int64(i%n)
		in.store(st, Ptr{p.o, Add(p.off, Const(64, uint64(g*stride*8+8*k)))}, types.Typ[types.Uint64], t, True)
	}
}

type fop struct {
	kinds []int // of the operands a[1:], then the result a[0]
	res   int
	f     func(f *field, x []*felem) *felem
	after func(in *Interp, st *State, a []Val)
}

// fieldModel builds the model of an operation a[0] = f(a[1], ...).
func (in *Interp) fieldModel(f *field, name string, op fop, groups int) Model {
	return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
		for i, v := range a {
			if ch, ok := v.(Choice); ok {
				set := func(x Val) []Val {
					b := append([]Val(nil), a...)
					b[i] = x
					return b
				}
				m := in.fieldModel(f, name, op, groups)
				return in.forkCall(st, ch.c, func(s *State) (Val, *State) { return m(in, s, fn, set(ch.a), c) },
					func(s *State) (Val, *State) { return m(in, s, fn, set(ch.b), c) })
			}
		}
		in.primCalls[f.name+"."+name]++
		var args []*Term
		var lens []int
		for i, k := range op.kinds {
			ws, ok := in.elemWords(st, a[1+i], groups, f.words*(k+1), int64(f.stride))
			if !ok {
				if q, isP := a[1+i].(Ptr); isP && q.o == nil {
					in.addPanic(st, "nil pointer in "+name, fn)
					return nil, nil
				}
				in.imprecise("unresolved operand of " + name)
				in.havocPtr(st, a[0])
				return nil, st
			}
			args = append(args, ws...)
			lens = append(lens, len(ws))
		}
		if _, ok := ptrBase(a[0]); !ok {
			in.imprecise("unresolved result of " + name)
			return nil, st
		}
		outs := liftField(args, func(ws []*Term) []*Term {
			var es []*felem
			i := 0
			for j, k := range op.kinds {
				es = append(es, f.load(ws[i:i+lens[j]], k))
				i += lens[j]
			}
			return f.store(op.f(f, es), op.res)
		})
		in.putWords(st, a[0], outs, groups, int64(f.stride))
		if op.after != nil {
			op.after(in, st, a)
		}
		if f.tooBig {
			in.imprecise("polynomial too large in " + name)
		}
		return nil, st
	}
}

var (
	fMul = func(f *field, x []*felem) *felem { return f.mul(x[0], x[1]) }
	fAdd = func(f *field, x []*felem) *felem { return f.add(x[0], x[1], false) }
	fSub = func(f *field, x []*felem) *felem { return f.add(x[0], x[1], true) }
	fSqr = func(f *field, x []*felem) *felem { return f.mul(x[0], x[0]) }
	fInv = func(f *field, x []*felem) *felem { return f.inv(x[0]) }
	fID  = func(f *field, x []*felem) *felem { return x[0] }
)

// fieldPrim gives the algebraic model of fn, if fn is a primitive at an active level.
func (in *Interp) fieldPrim(fn *ssa.Function) (Model, bool) {
	path, name := fn.Pkg.Pkg.Path(), fn.Name()
	if isCsidh(path) {
		f := in.fields["csidh.field"]
		if f == nil {
			return nil, false
		}
		if in.modes["csidh.order"] {
			if m, ok := in.csOrderPrim(f, fn); ok {
				return m, true
			}
		}
		switch name {
		case "mulRdc":
			return in.fieldModel(f, name, fop{[]int{single, single}, single, fMul, nil}, 1), true
		case "addRdc":
			return in.fieldModel(f, name, fop{[]int{single, single}, single, fAdd, nil}, 1), true
		case "subRdc":
			return in.fieldModel(f, name, fop{[]int{single, single}, single, fSub, nil}, 1), true
		case "cswap512":
			return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
				return nil, in.cswap(st, a[0], a[1], a[2].(*Term), 8)
			}, true
		case "mul512":
			return mul512Model, true
		case "modExpRdc512", "modExpRdc64":
			if in.modes["csidh.exp"] {
				return nil, false
			}
			return in.modExpModel(f), true
		}
		return nil, false
	}
	pkg := path[strings.LastIndex(path, "/")+1:]
	if f := in.fields[pkg+".fp2"]; f != nil {
		switch name {
		case "add":
			return in.fieldModel(f, name, fop{[]int{single, single}, single, fAdd, nil}, 2), true
		case "sub":
			return in.fieldModel(f, name, fop{[]int{single, single}, single, fSub, nil}, 2), true
		case "mul":
			return in.fieldModel(f, name, fop{[]int{single, single}, single, fMul, nil}, 2), true
		case "sqr":
			return in.fieldModel(f, name, fop{[]int{single}, single, fSqr, nil}, 2), true
		case "inv":
			return in.fieldModel(f, name, fop{[]int{single}, single, fInv, nil}, 2), true
		case "cswap":
			return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
				// (xPx, xPz, xQx, xQz, choice)
				for i := 0; i < 2; i++ {
					st = in.cswap(st, a[i], a[i+2], a[4].(*Term), 24)
				}
				return nil, st
			}, true
		}
	}
	if f := in.fields[pkg+".fp"]; f != nil {
		op := strings.TrimSuffix(name, strings.ToUpper(pkg))
		if op == name {
			return nil, false
		}
		switch op {
		case "add":
			return in.fieldModel(f, name, fop{[]int{single, single}, single, fAdd, nil}, 1), true
		case "sub":
			return in.fieldModel(f, name, fop{[]int{single, single}, single, fSub, nil}, 1), true
		case "adl":
			return in.fieldModel(f, name, fop{[]int{double, double}, double, fAdd, nil}, 1), true
		case "sul":
			return in.fieldModel(f, name, fop{[]int{double, double}, double, fSub, nil}, 1), true
		case "mul":
			return in.fieldModel(f, name, fop{[]int{single, single}, double, fMul, nil}, 1), true
		case "rdc":
			// the operand is left in an unknown state
			clobber := func(in *Interp, st *State, a []Val) {
				in.shortCtr++
				ws := make([]*Term, 2*f.words)
				for i := range ws {
					ws[i] = Sym(64, fmt.Sprintf("rdc#%d[%d]", in.shortCtr, i))
				}
				in.putWords(st, a[1], ws, 1, 0)
			}
			return in.fieldModel(f, name, fop{[]int{double}, single, fID, clobber}, 1), true
		case "mod":
			m := in.fieldModel(f, name, fop{[]int{single}, single, fID, nil}, 1)
			return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
				return m(in, st, fn, []Val{a[0], a[0]}, c)
			}, true
		case "cswap":
			return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
				return nil, in.cswap(st, a[0], a[1], a[2].(*Term), f.words)
			}, true
		}
	}
	return nil, false
}

// mul512Model: a 512-bit integer times a word, on known operands only.
func mul512Model(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
	ws, ok := in.elemWords(st, a[1], 1, 8, 0)
	k, ok2 := a[2].(*Term)
	if _, ok3 := ptrBase(a[0]); !ok || !ok2 || !ok3 {
		in.imprecise("unresolved operand of mul512")
		return nil, st
	}
	in.primCalls["csidh.mul512"]++
	outs := liftField(append(ws, k), func(x []*Term) []*Term {
		for _, t := range x {
			if t.k != KConst {
				return multiApp("mul512", x, 64, 8)
			}
		}
		v := wordsToBig(x[:8])
		return bigToWords(v.Mul(v, new(big.Int).SetUint64(x[8].c)), 8)
	})
	in.putWords(st, a[0], outs, 1, 0)
	return nil, st
}

// modExpModel: (r, b, e) with a known exponent, a word or 512 bits.
func (in *Interp) modExpModel(f *field) Model {
	return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
		in.primCalls[f.name+".modExp"]++
		bs, ok := in.elemWords(st, a[1], 1, 8, 0)
		var es []*Term
		if t, isT := a[2].(*Term); isT {
			es = []*Term{t}
		} else if ws, ok := in.elemWords(st, a[2], 1, 8, 0); ok {
			es = ws
		}
		if _, ok2 := ptrBase(a[0]); !ok || !ok2 || es == nil {
			in.imprecise("unresolved operand of modular exponentiation")
			return nil, st
		}
		outs := liftField(append(append([]*Term{}, bs...), es...), func(x []*Term) []*Term {
			for _, t := range x[8:] {
				if t.k != KConst {
					return multiApp("modexp", x, 64, 8)
				}
			}
			return f.store(f.power(f.load(x[:8], single), wordsToBig(x[8:])), single)
		})
		in.putWords(st, a[0], outs, 1, 0)
		if f.tooBig {
			in.imprecise("polynomial too large in exponentiation")
		}
		return nil, st
	}
}

// ---------- harness intrinsics on field values

func (in *Interp) curField() *field { return in.fields[in.lastField] }

func (in *Interp) liftF(args []Val, f func(F *field, x []*felem) *felem) Val {
	F := in.curField()
	var ts []*Term
	for _, a := range args {
		t, ok := a.(*Term)
		if !ok || F == nil {
			in.imprecise("field value not resolved")
			return Const(64, 0)
		}
		ts = append(ts, t)
	}
	r := liftField(ts, func(x []*Term) []*Term {
		var es []*felem
		for _, t := range x {
			if t.k != KConst || t.c >= uint64(len(F.list)) {
				in.imprecise("field value not resolved")
				return []*Term{Const(64, 0)}
			}
			es = append(es, F.list[t.c])
		}
		return []*Term{Const(64, uint64(f(F, es).id))}
	})[0]
	if F.tooBig {
		in.imprecise("polynomial too large in expected value")
	}
	return r
}

func init() {
	rt := func(s string) string { return rtPath + "." + s }
	m := func(s string) string { return "(" + rtPath + ".F)." + s }
	def := func(n string, f func(in *Interp, st *State, a []Val) Val) {
		stdModels[n] = func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return f(in, st, a), st
		}
	}
	bin := func(n string, f func(F *field, x []*felem) *felem) {
		def(m(n), func(in *Interp, st *State, a []Val) Val { return in.liftF(a, f) })
	}
	bin("Add", fAdd)
	bin("Sub", fSub)
	bin("Mul", fMul)
	bin("Inv", fInv)
	bin("Sqr", fSqr)
	def(m("Pow"), func(in *Interp, st *State, a []Val) Val {
		k, _ := constArg(a[1])
		return in.liftF(a[:1], func(F *field, x []*felem) *felem { return F.power(x[0], big.NewInt(k)) })
	})
	// (p + add) / div
	def(m("PowP"), func(in *Interp, st *State, a []Val) Val {
		k, _ := constArg(a[1])
		d, _ := constArg(a[2])
		return in.liftF(a[:1], func(F *field, x []*felem) *felem {
			e := new(big.Int).Add(F.p, big.NewInt(k))
			return F.power(x[0], e.Div(e, big.NewInt(d)))
		})
	})
	def(m("Times"), func(in *Interp, st *State, a []Val) Val {
		k, _ := constArg(a[1])
		return in.liftF(a[:1], func(F *field, x []*felem) *felem {
			return F.mul(x[0], F.fconst(F.mod(big.NewInt(k)), bigZero))
		})
	})
	def(rt("FInt"), func(in *Interp, st *State, a []Val) Val {
		k, _ := constArg(a[0])
		return in.liftF(nil, func(F *field, x []*felem) *felem { return F.fconst(F.mod(big.NewInt(k)), bigZero) })
	})
	def(rt("FR"), func(in *Interp, st *State, a []Val) Val {
		return in.liftF(nil, func(F *field, x []*felem) *felem { return F.fconst(F.r, bigZero) })
	})
	def(rt("FOf"), func(in *Interp, st *State, a []Val) Val {
		f, ok := a[0].(Iface)
		F := in.curField()
		if !ok || F == nil {
			in.imprecise("field value not resolved")
			return Const(64, 0)
		}
		groups := 1
		if F.ext {
			groups = 2
		}
		ws, ok := in.elemWords(st, f.v, groups, F.words, int64(F.stride))
		if !ok {
			in.imprecise("field value not resolved")
			return Const(64, 0)
		}
		return liftField(ws, func(x []*Term) []*Term { return []*Term{Const(64, uint64(F.load(x, single).id))} })[0]
	})
	def(rt("FEq"), func(in *Interp, st *State, a []Val) Val {
		F := in.curField()
		x, ok1 := a[0].(*Term)
		y, ok2 := a[1].(*Term)
		if F == nil || !ok1 || !ok2 {
			in.imprecise("field values not resolved")
			return False
		}
		return liftField([]*Term{x, y}, func(t []*Term) []*Term {
			if t[0].k != KConst || t[1].k != KConst || t[0].c >= uint64(len(F.list)) || t[1].c >= uint64(len(F.list)) {
				return []*Term{in.unknownBool("field values")}
			}
			u, v := F.list[t[0].c], F.list[t[1].c]
			if F.equal(u, v) {
				return []*Term{True}
			}
			in.diff(fmt.Sprintf("%s differs from %s", F.String(u), F.String(v)))
			if u.exp == nil && v.exp == nil && !F.tooBig {
				return []*Term{False}
			}
			return []*Term{in.unknownBool("field values")}
		})[0]
	})
	def(rt("FZero"), func(in *Interp, st *State, a []Val) Val {
		F := in.curField()
		x, ok := a[0].(*Term)
		if F == nil || !ok {
			in.imprecise("field value not resolved")
			return False
		}
		return liftField([]*Term{x}, func(t []*Term) []*Term {
			if t[0].k != KConst || t[0].c >= uint64(len(F.list)) {
				return []*Term{in.unknownBool("field value")}
			}
			u := F.list[t[0].c]
			return []*Term{Const(1, b2u(u.exp == nil && len(u.num) == 0))}
		})[0]
	})
}

// fieldBorrow recognises the subtraction of the prime from a canonical
// element word by word; its final borrow is one.
func (in *Interp) fieldBorrow(x, y, z *Term) (Val, bool) {
	f := in.curField()
	if f == nil || x.k != KApp || x.name != tagOf[single]+f.name || y.k != KConst {
		return nil, false
	}
	i := int(x.args[1].c)
	if i >= f.words || bigToWords(f.p, f.words)[i].c != y.c {
		return nil, false
	}
	nm := "fsb:" + f.name
	if i == 0 && (z.k != KConst || z.c != 0) || i > 0 && (z.k != KApp || z.name != nm || z.args[0] != x.args[0] || int(z.args[1].c) != i-1) {
		return nil, false
	}
	b := AppR(64, 0, 1, nm, x.args[0], x.args[1])
	if i == f.words-1 {
		b = Const(64, 1)
	}
	return Tuple{App(64, "fsd:"+f.name, x.args[0], x.args[1]), b}, true
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
