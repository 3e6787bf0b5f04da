package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const rtPath = modulePath + "/verifrt"

func (in *Interp) modelFor(fn *ssa.Function) Model {
	if m, ok := in.modelCache[fn]; ok {
		return m
	}
	m := in.findModel(fn)
	in.modelCache[fn] = m
	return m
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.String()
}

func (in *Interp) findModel(fn *ssa.Function) Model {
	n := fnName(fn)
	if m, ok := stdModels[n]; ok {
		return m
	}
	if fn.Pkg != nil && !isModPkg(fn.Pkg.Pkg.Path()) && fn.Name() == "init" {
		return func(in *Interp, st *State, fn *ssa.Function, args []Val, c *ssa.CallCommon) (Val, *State) {
			return nil, st
		}
	}
	if m := in.primModel(fn); m != nil {
		return m
	}
	return nil
}

func strArg(v Val) string {
	if s, ok := v.(Str); ok && s.known {
		return s.s
	}
	return "?"
}
func constArg(v Val) (int64, bool) {
	if t, ok := v.(*Term); ok && t.k == KConst {
		return sgn(t), true
	}
	return 0, false
}

func (in *Interp) symBytes(st *State, name string, lo, hi, extra int64) Slice {
	o := in.newObj(st, name, hi+extra, types.NewArray(types.Typ[types.Uint8], hi+extra))
	o.sym = name
	ln := Const(64, uint64(hi))
	if lo != hi {
		ln = NumSym(64, "len:"+name, lo, hi)
	}
	cp := ln
	if extra > 0 {
		cp = Add(ln, Const(64, uint64(extra)))
	}
	return Slice{o, Const(64, 0), ln, cp, types.Typ[types.Uint8]}
}

type rngInfo struct {
	name string
	good bool
}

func rngByte(name string, pos *Term) *Term {
	if pos.k == KConst {
		return Sym(8, fmt.Sprintf("rng:%s[%d]", name, pos.c))
	}
	return App(8, "rng:"+name, pos)
}

func tuple2(a, b Val) Val { return Tuple{a, b} }

var errIface = func(name string) Val { return Iface{typ: types.Typ[types.Invalid], v: Opaque{name}} }

// readRng delivers bytes into buf. exact: io.ReadFull semantics.
func (in *Interp) readRng(st *State, o *Object, buf Slice, exact bool) Val {
	ri := in.rngs[o]
	pos := Restrict(in.loadInt(st.getRaw(o.id), o, 0, 8, false), st.pc)
	failed := in.loadInt(st.getRaw(o.id), o, 8, 1, true)
	limit := NumSym(64, "rng.limit:"+ri.name, 0, 1<<20)
	_, hi, ok := Range(buf.len)
	if !ok || hi > 1<<14 {
		in.imprecise("random read of unbounded length")
		return Tuple{freshUnknown(types.Typ[types.Int], "rng"), Unknown{"rng"}}
	}
	end := Add(pos, buf.len)
	good := True
	if !ri.good {
		good = Not(Slt(limit, end))
	}
	n := buf.len
	if !exact {
		in.shortCtr++
		n = NumSym(64, fmt.Sprintf("rng.short:%s@%d", ri.name, in.shortCtr), 0, hi)
		n = Ite(Slt(buf.len, n), buf.len, n)
	}
	if good != True {
		av := Sub(limit, pos)
		av = Ite(Slt(av, n), av, n)
		n = Ite(good, n, av)
	}
	for i := int64(0); i < hi; i++ {
		in.store(st, Ptr{buf.o, Add(buf.off, Const(64, uint64(i)))}, types.Typ[types.Uint8],
			rngByte(ri.name, Add(pos, Const(64, uint64(i)))), Restrict(Slt(Const(64, uint64(i)), n), st.pc))
	}
	in.putCell(st, o, 0, 8, Add(pos, n))
	in.putCell(st, o, 8, 1, Or(failed, Not(good)))
	return Tuple{n, mergeVal(good, Iface{}, errIface("rng error "+ri.name))}
}

func (in *Interp) rngOf(v Val) *Object {
	f, ok := v.(Iface)
	if !ok {
		return nil
	}
	p, ok := f.v.(Ptr)
	if !ok || p.o == nil {
		return nil
	}
	if _, ok := in.rngs[p.o]; !ok {
		return nil
	}
	return p.o
}

func (in *Interp) eqSlices(st *State, a, b Val) *Term {
	return in.eqSlices2(st, st, a, b)
}

func (in *Interp) eqSlices2(sa, sb *State, a, b Val) *Term {
	if c, ok := a.(Choice); ok {
		return Ite(c.c, in.eqSlices2(sa, sb, c.a, b), in.eqSlices2(sa, sb, c.b, b))
	}
	if c, ok := b.(Choice); ok {
		return Ite(c.c, in.eqSlices2(sa, sb, a, c.a), in.eqSlices2(sa, sb, a, c.b))
	}
	x, ok1 := a.(Slice)
	y, ok2 := b.(Slice)
	if !ok1 || !ok2 {
		in.lastDiff = "slice not resolved"
		return in.unknownBool("slices")
	}
	r := Restrict(Eq(x.len, y.len), sa.pc)
	if r != True {
		in.diff(fmt.Sprintf("lengths %v and %v", x.len, y.len))
	}
	if r == False {
		return r
	}
	_, hi, ok := Range(x.len)
	if !ok || hi > 1<<14 {
		in.lastDiff = "unbounded length"
		return in.unknownBool("slices")
	}
	es := sizes.Sizeof(x.elem)
	nd := 0
	for i := int64(0); i < hi; i++ {
		used := Restrict(Slt(Const(64, uint64(i)), x.len), sa.pc)
		if used == False {
			break
		}
		u := in.load(sa, Ptr{x.o, Add(x.off, Const(64, uint64(i*es)))}, x.elem)
		v := in.load(sb, Ptr{y.o, Add(y.off, Const(64, uint64(i*es)))}, y.elem)
		e := in.equal(u, v)
		tu, _ := u.(*Term)
		tv, _ := v.(*Term)
		if tu != nil && tv != nil && e != True && EqUnder(And(And(sa.pc, used), r), tu, tv) {
			e = True
		}
		if e != True {
			if nd == 0 {
				in.diff(fmt.Sprintf("element %d: %s vs %s (written at %s and %s)", i, vstring(u), vstring(v),
					in.siteOf(sa, x, i*es), in.siteOf(sb, y, i*es)))
			}
			nd++
		}
		r = And(r, Or(Not(used), e))
	}
	return r
}

func vstring(v Val) string {
	if t, ok := v.(*Term); ok {
		return t.String()
	}
	return fmt.Sprintf("%T", v)
}

func (in *Interp) siteOf(st *State, s Slice, off int64) string {
	if s.o == nil || s.off.k != KConst {
		return "?"
	}
	os := st.getRaw(s.o.id)
	if os == nil {
		return "?"
	}
	k := sgn(s.off) + off
	for d := int64(0); d < 8; d++ {
		if c, ok := os.cells[k-d]; ok && int64(c.w) > d {
			return relPos(in.fset.Position(c.site))
		}
	}
	return "not written"
}

func (in *Interp) diff(s string) {
	if in.lastDiff == "" {
		in.lastDiff = s
	}
}

func (in *Interp) unknownBool(why string) *Term {
	unknownCtr++
	return Sym(1, fmt.Sprintf("unknown#%d(%s)", unknownCtr, why))
}

// deepEq compares the values u (in sa) and v (in sb) of type t, following pointers.
func (in *Interp) deepEq(sa, sb *State, u, v Val, seen map[[2]*Object]bool, path string) *Term {
	if c, ok := u.(Choice); ok {
		return Ite(c.c, in.deepEq(sa, sb, c.a, v, seen, path), in.deepEq(sa, sb, c.b, v, seen, path))
	}
	if c, ok := v.(Choice); ok {
		return Ite(c.c, in.deepEq(sa, sb, u, c.a, seen, path), in.deepEq(sa, sb, u, c.b, seen, path))
	}
	switch x := u.(type) {
	case Ptr:
		y, ok := v.(Ptr)
		if !ok {
			break
		}
		if x.o == nil || y.o == nil {
			if x.o == y.o {
				return True
			}
			in.diff(path + ": nil pointer")
			return False
		}
		return And(Eq(x.off, y.off), in.deepObj(sa, sb, x.o, y.o, seen, path))
	case Slice:
		y, ok := v.(Slice)
		if !ok {
			break
		}
		if x.o == nil || y.o == nil {
			return in.eqSlices2(sa, sb, u, v)
		}
		if !isInt(x.elem) {
			return And(Eq(x.len, y.len), And(Eq(x.off, y.off), in.deepObj(sa, sb, x.o, y.o, seen, path)))
		}
		return in.eqSlices2(sa, sb, u, v)
	case Iface:
		y, ok := v.(Iface)
		if ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			return in.deepEq(sa, sb, x.v, y.v, seen, path)
		}
		if ok && x.typ == nil && y.typ == nil {
			return True
		}
		in.diff(path + ": dynamic type")
		return False
	case Agg:
		y, ok := v.(Agg)
		if ok && len(x.leaves) == len(y.leaves) {
			r := True
			for i := range x.leaves {
				r = And(r, in.deepEq(sa, sb, x.leaves[i], y.leaves[i], seen, path))
			}
			return r
		}
	case *Term:
		if y, ok := v.(*Term); ok && x.w == y.w {
			if EqUnder(sa.pc, x, y) {
				return True
			}
			e := Eq(x, y)
			in.diff(fmt.Sprintf("%s: %v vs %v", path, x, y))
			return e
		}
	case MapRef:
		if y, ok := v.(MapRef); ok && x == y {
			return True
		}
	default:
		if sameVal(u, v) {
			return True
		}
	}
	in.diff(fmt.Sprintf("%s: %T vs %T", path, u, v))
	return in.unknownBool("deep compare " + path)
}

func (in *Interp) deepObj(sa, sb *State, a, b *Object, seen map[[2]*Object]bool, path string) *Term {
	k := [2]*Object{a, b}
	if seen[k] {
		return True
	}
	seen[k] = true
	if _, isRng := in.rngs[a]; isRng {
		return True
	}
	oa, ob := sa.getRaw(a.id), sb.getRaw(b.id)
	if a == b && oa == ob {
		// same object, same content: only what it points to may differ
		if oa == nil {
			return True
		}
		hasRef := false
		for _, c := range oa.cells {
			if _, isT := c.v.(*Term); !isT {
				hasRef = true
			}
		}
		if !hasRef {
			return True
		}
	}
	if a.typ == nil || a.isMap {
		if oa == ob {
			return True
		}
		return in.unknownBool("untyped object " + a.name)
	}
	if a.size != b.size {
		in.diff(path + ": object sizes differ")
		return False
	}
	r := True
	for _, l := range flatten(a.typ) {
		u := in.loadLeafConst(sa, a, l.off, l.typ)
		v := in.loadLeafConst(sb, b, l.off, l.typ)
		if t, ok := u.(*Term); ok && Val(t) == v {
			continue
		}
		e := in.deepEq(sa, sb, u, v, seen, fmt.Sprintf("%s.%s+%d", path, a.name, l.off))
		r = And(r, e)
		if r == False {
			return r
		}
	}
	return r
}

type snapVal struct {
	st *State
	p  Val
}

// havocReach replaces the integer array contents of everything reachable from v.
func (in *Interp) havocReach(st *State, name string, v Val, seen map[*Object]bool) *State {
	switch x := v.(type) {
	case Choice:
		st = in.havocReach(st, name, x.a, seen)
		return in.havocReach(st, name, x.b, seen)
	case Iface:
		return in.havocReach(st, name, x.v, seen)
	case Agg:
		for _, l := range x.leaves {
			st = in.havocReach(st, name, l, seen)
		}
		return st
	case Slice:
		if x.o != nil && !seen[x.o] && x.o.id >= in.initMark {
			seen[x.o] = true
			if isInt(x.elem) {
				in.symObj(st, x.o, name)
				return st
			}
			return in.havocObjDeep(st, name, x.o, seen)
		}
		return st
	case Ptr:
		if x.o != nil && !seen[x.o] && x.o.id >= in.initMark {
			seen[x.o] = true
			return in.havocObjDeep(st, name, x.o, seen)
		}
	}
	return st
}

func (in *Interp) symObj(st *State, o *Object, name string) {
	os := st.mut(o)
	os.cells = map[int64]Cell{}
	os.havoc = fmt.Sprintf("%s.%s", name, o.name)
}

func (in *Interp) havocObjDeep(st *State, name string, o *Object, seen map[*Object]bool) *State {
	if _, ok := in.rngs[o]; ok || o.typ == nil {
		return st
	}
	if n, ok := o.typ.(*types.Named); ok && n.Obj().Pkg() != nil && strings.HasSuffix(n.Obj().Pkg().Path(), "/hash/sha3") {
		// a hash object: drive it through its own methods to an unknown state
		call := func(m string, args ...Val) {
			if st == nil {
				return
			}
			f := in.prog.LookupMethod(types.NewPointer(o.typ), n.Obj().Pkg(), m)
			if f == nil {
				in.imprecise("hash object without method " + m)
				return
			}
			_, st = in.callFn(st, f, append([]Val{Ptr{o, Const(64, 0)}}, args...), nil)
		}
		in.hashCtr++
		call("Reset")
		call("Write", in.symBytes(st, fmt.Sprintf("%s.hash%d.in", name, in.hashCtr), 205, 205, 0))
		sq := Sym(1, fmt.Sprintf("%s.hash%d.squeezing", name, in.hashCtr))
		o2 := st.fork()
		o2.pc = And(st.pc, Not(sq))
		st.pc = And(st.pc, sq)
		call("Read", in.symBytes(st, fmt.Sprintf("%s.hash%d.out", name, in.hashCtr), 11, 11, 0))
		return in.join(st, o2)
	}
	for _, l := range flatten(o.typ) {
		v := in.loadLeafConst(st, o, l.off, l.typ)
		if isInt(l.typ) {
			if inArray(o.typ, l.off) {
				in.putCell(st, o, l.off, l.w, Sym(width(l.typ), fmt.Sprintf("%s.%s[%d]", name, o.name, l.off)))
			}
			continue
		}
		st = in.havocReach(st, name, v, seen)
	}
	return st
}

// inArray reports whether the leaf of t at off is an element of an array.
func inArray(t types.Type, off int64) bool {
	for {
		switch u := t.Underlying().(type) {
		case *types.Array:
			return true
		case *types.Struct:
			fs := make([]*types.Var, u.NumFields())
			for i := range fs {
				fs[i] = u.Field(i)
			}
			offs := sizes.Offsetsof(fs)
			for i := len(fs) - 1; i >= 0; i-- {
				if off >= offs[i] {
					t = fs[i].Type()
					off -= offs[i]
					break
				}
			}
		default:
			return false
		}
	}
}

func (in *Interp) addObl(o Obligation) { in.obls = append(in.obls, o) }

var stdModels = map[string]Model{}

func init() {
	rt := func(s string) string { return rtPath + "." + s }
	for k, v := range map[string]Model{
		rt("Bytes"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			n, _ := constArg(a[1])
			return in.symBytes(st, strArg(a[0]), n, n, 0), st
		},
		rt("BytesRange"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			lo, _ := constArg(a[1])
			hi, _ := constArg(a[2])
			return in.symBytes(st, strArg(a[0]), lo, hi, 0), st
		},
		rt("BytesLen"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			n := a[1].(*Term)
			_, hi, ok := Range(n)
			if !ok {
				in.imprecise("BytesLen")
			}
			s := in.symBytes(st, strArg(a[0]), hi, hi, 0)
			s.len, s.cap = n, n
			return s, st
		},
		rt("BytesCap"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			n, _ := constArg(a[1])
			e, _ := constArg(a[2])
			return in.symBytes(st, strArg(a[0]), n, n, e), st
		},
		rt("Fill"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			s, ok := a[1].(Slice)
			_, n, ok2 := Range(in.lenOf(a[1]))
			if !ok || !ok2 {
				in.imprecise("Fill")
				return nil, st
			}
			for i := int64(0); i < n; i++ {
				in.store(st, Ptr{s.o, Add(s.off, Const(64, uint64(i)))}, s.elem, Sym(8, fmt.Sprintf("%s[%d]", strArg(a[0]), i)), Slt(Const(64, uint64(i)), s.len))
			}
			return nil, st
		},
		rt("Bool"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Sym(1, strArg(a[0])), st
		},
		rt("U8"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Sym(8, strArg(a[0])), st
		},
		rt("U64"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Sym(64, strArg(a[0])), st
		},
		rt("Int"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			lo, _ := constArg(a[1])
			hi, _ := constArg(a[2])
			return NumSym(64, strArg(a[0]), lo, hi), st
		},
		rt("Choose"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			lo, _ := constArg(a[1])
			hi, _ := constArg(a[2])
			x := NumSym(64, strArg(a[0]), lo, hi)
			r := Const(64, uint64(hi))
			for k := hi - 1; k >= lo; k-- {
				r = Ite(Slt(x, Const(64, uint64(k+1))), Const(64, uint64(k)), r)
			}
			return r, st
		},
		rt("Reader"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return in.mkRng(st, fn, strArg(a[0]), false), st
		},
		rt("GoodReader"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return in.mkRng(st, fn, strArg(a[0]), true), st
		},
		"(*" + rtPath + ".Rng).Read": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			p, ok := a[0].(Ptr)
			b, ok2 := a[1].(Slice)
			if !ok || !ok2 || in.rngs[p.o].name == "" {
				in.imprecise("Rng.Read")
				return Tuple{freshUnknown(types.Typ[types.Int], "rng"), Unknown{"rng"}}, st
			}
			return in.readRng(st, p.o, b, false), st
		},
		rt("Byte"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return rngByte(strArg(a[0]), a[1].(*Term)), st
		},
		rt("Havoc"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			if f, ok := a[1].(Iface); ok && f.typ != nil {
				p, ok1 := f.v.(Ptr)
				pt, ok2 := f.typ.Underlying().(*types.Pointer)
				if ok1 && ok2 && p.o != nil && p.off.k == KConst && p.o.typ != nil && !types.Identical(pt.Elem(), p.o.typ) {
					// part of an object
					for _, l := range flatten(pt.Elem()) {
						if isInt(l.typ) {
							in.putCell(st, p.o, sgn(p.off)+l.off, l.w, Sym(width(l.typ), fmt.Sprintf("%s.%s[%d]", strArg(a[0]), p.o.name, l.off)))
						}
					}
					return nil, st
				}
			}
			return nil, in.havocReach(st, strArg(a[0]), a[1], map[*Object]bool{})
		},
		rt("Extrapolate"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return in.extrapolate(st, a[0], a[1], a[2], a[3]), st
		},
		rt("Assume"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			st.pc = And(st.pc, in.boolOf(a[0]))
			return nil, st
		},
		rt("Cover"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			in.covers[strArg(a[0])] = true
			return nil, st
		},
		rt("Assert"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			b := in.boolOf(a[1])
			fail := And(st.pc, Not(b))
			o := Obligation{Harness: in.harness, Name: strArg(a[0]), OK: fail == False, Where: relPos(in.fset.Position(in.curPos))}
			if !o.OK && in.modes["counts"] {
				x, found := countWitness(fail, "count", 1<<33)
				o.OK = !found
				o.Detail = fmt.Sprintf("violated for a count of %d", x)
			} else if !o.OK {
				o.Detail = in.lastDiff
				if o.Detail == "" {
					o.Detail = "violated when " + tstr(fail, 7)
				}
			}
			in.lastDiff = ""
			in.assertHit[o.Where] = true
			in.addObl(o)
			return nil, st
		},
		rt("EqBytes"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return in.eqSlices(st, a[0], a[1]), st
		},
		rt("Same"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return in.deepEq(st, st, a[0], a[1], map[[2]*Object]bool{}, ""), st
		},
		rt("Snapshot"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Iface{types.Typ[types.Invalid], &snapVal{st.fork(), a[0]}}, st
		},
		rt("Unchanged"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			s := a[0].(Iface).v.(*snapVal)
			return in.deepEq(st, s.st, a[1], s.p, map[[2]*Object]bool{}, ""), st
		},
		rt("Alias"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return in.mayAlias(a[0], a[1]), st
		},
		rt("Fun"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			u8 := types.Typ[types.Uint8]
			n, _ := constArg(a[1])
			var args []*Term
			for _, x := range a[2:] {
				s, ok := x.(Slice)
				k, ok2 := constArg(s.len)
				if !ok || !ok2 {
					in.imprecise("Fun of an unknown slice")
					return freshUnknown(resultType(fn.Signature), "Fun"), st
				}
				for i := int64(0); i < k; i++ {
					args = append(args, in.load(st, Ptr{s.o, Add(s.off, Const(64, uint64(i)))}, u8).(*Term))
				}
			}
			outs := multiApp(strArg(a[0]), args, 8, int(n))
			o := in.newObj(st, "fun", n, types.NewArray(u8, n))
			for i, t := range outs {
				in.store(st, Ptr{o, Const(64, uint64(i))}, u8, t, True)
			}
			return Slice{o, Const(64, 0), Const(64, uint64(n)), Const(64, uint64(n)), u8}, st
		},
		rt("FreshBits"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return in.freshBits(st, a[0], a[1]), st
		},
		rt("UsesRng"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return in.usesRng(st, a), st
		},
		rt("Select"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Ite(in.boolOf(a[0]), a[1].(*Term), a[2].(*Term)), st
		},
		rt("And"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return And(in.boolOf(a[0]), in.boolOf(a[1])), st
		},
		rt("Or"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Or(in.boolOf(a[0]), in.boolOf(a[1])), st
		},
		rt("Implies"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Or(Not(in.boolOf(a[0])), in.boolOf(a[1])), st
		},
		rt("Cut"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			k, _ := constArg(a[0])
			in.cut = int(k)
			return nil, st
		},
		rt("LastBlock"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			x := in.lastBlock[0]
			for i := range in.lastBlock {
				if x = in.lastBlock[i]; x == nil {
					in.imprecise("no block yet")
					x = Const(8, 0)
				}
				in.store(st, Ptr{a[0].(Ptr).o, Add(a[0].(Ptr).off, Const(64, uint64(i)))}, types.Typ[types.Uint8], x, True)
			}
			return nil, st
		},
		rt("Name"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return nameWord(a[0].(*Term)), st
		},
		rt("Mode"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			in.modes[strArg(a[0])] = true
			if strArg(a[0]) == "num" {
				numMode = true
				in.num = &numState{}
			}
			if strArg(a[0]) == "prim" {
				wordMode = true
			}
			if strArg(a[0]) == "ct" {
				in.ct = &ctState{memo: map[*Term]bool{}, sites: map[string]*ctSite{}}
			}
			if f := fieldOfMode(strArg(a[0])); f != nil {
				in.fields[strArg(a[0])] = f
				in.lastField = strArg(a[0])
			}
			in.modelCache = map[*ssa.Function]Model{}
			return nil, st
		},
		rt("Panics"): func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			f, ok := a[0].(*FuncVal)
			if !ok {
				in.imprecise("Panics of unknown function")
				return in.unknownBool("panics"), st
			}
			saved := in.panics
			in.panics = nil
			_, ns := in.callFn(st, f.fn, nil, f.free)
			mine := in.panics
			in.panics = saved
			var val Val = False
			r := ns
			for _, p := range mine {
				if p.st.pc == False {
					continue
				}
				if r == nil || r.pc == False {
					r, val = p.st, True
					continue
				}
				cnd := Restrict(p.st.pc, Or(p.st.pc, r.pc))
				val = mergeVal(cnd, True, val)
				r = in.join(p.st, r)
			}
			in.lastPanics = mine
			return val, r
		},
		"errors.New": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return errIface("err:" + strArg(a[0])), st
		},
		"fmt.Errorf": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return errIface("err:" + strArg(a[0])), st
		},
		"fmt.Sprintf": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Str{known: true, s: strArg(a[0])}, st
		},
		"strconv.Itoa": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Str{known: true, s: "itoa"}, st
		},
		"strconv.FormatInt": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Str{known: true, s: "itoa"}, st
		},
		"io.ReadFull": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return in.readFull(st, fn, a, c)
		},
		"crypto/rand.Read": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			b, ok := a[0].(Slice)
			if !ok {
				in.imprecise("rand.Read")
				return Tuple{freshUnknown(types.Typ[types.Int], ""), Iface{}}, st
			}
			in.havocObj(st, b.o, "system randomness")
			return Tuple{b.len, Iface{}}, st
		},
		"crypto/subtle.ConstantTimeCompare": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			sv := in.lastDiff
			e := in.eqSlices(st, a[0], a[1])
			in.lastDiff = sv
			return Ite(e, Const(64, 1), Const(64, 0)), st
		},
		"bytes.Equal": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			sv := in.lastDiff
			e := in.eqSlices(st, a[0], a[1])
			in.lastDiff = sv
			return e, st
		},
		"crypto/subtle.ConstantTimeByteEq": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Ite(Eq(a[0].(*Term), a[1].(*Term)), Const(64, 1), Const(64, 0)), st
		},
		"crypto/subtle.ConstantTimeEq": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Ite(Eq(a[0].(*Term), a[1].(*Term)), Const(64, 1), Const(64, 0)), st
		},
		"crypto/subtle.ConstantTimeSelect": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			return Ite(toBool(a[0].(*Term)), a[1].(*Term), a[2].(*Term)), st
		},
		"crypto/subtle.ConstantTimeCopy": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			d, ok1 := a[1].(Slice)
			s, ok2 := a[2].(Slice)
			if !ok1 || !ok2 || d.o == nil || s.o == nil {
				in.imprecise("ConstantTimeCopy")
				return nil, st
			}
			in.move(st, st, Ptr{d.o, d.off}, Ptr{s.o, s.off}, d.len, d.elem, toBool(a[0].(*Term)))
			return nil, st
		},
		"crypto/subtle.XORBytes": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			d, ok1 := a[0].(Slice)
			x, ok2 := a[1].(Slice)
			y, ok3 := a[2].(Slice)
			n := Const(64, 0)
			if ok1 && ok2 && ok3 {
				n = Ite(Slt(x.len, y.len), x.len, y.len)
			}
			_, hi, ok := Range(n)
			if !ok1 || !ok2 || !ok3 || !ok || hi > 1<<14 {
				in.imprecise("XORBytes")
				return freshUnknown(types.Typ[types.Int], "XORBytes"), st
			}
			if !in.require(st, le(n, d.len), "subtle.XORBytes: dst too short", fn) {
				return nil, nil
			}
			var vs []*Term
			for i := int64(0); i < hi; i++ {
				k := Const(64, uint64(i))
				u, _ := in.load(st, Ptr{x.o, Add(x.off, k)}, x.elem).(*Term)
				v, _ := in.load(st, Ptr{y.o, Add(y.off, k)}, y.elem).(*Term)
				vs = append(vs, Xor(u, v))
			}
			for i := int64(0); i < hi; i++ {
				k := Const(64, uint64(i))
				in.store(st, Ptr{d.o, Add(d.off, k)}, d.elem, vs[i], Restrict(Slt(k, n), st.pc))
			}
			return n, st
		},
		"math/bits.Add64": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			x, y, z := a[0].(*Term), a[1].(*Term), a[2].(*Term)
			s := Add(Add(x, y), z)
			if numMode {
				s, b := addCarry(x, y, z)
				return Tuple{s, b}, st
			}
			if x.k == KConst && y.k == KConst && z.k == KConst {
				return Tuple{s, Const(64, ((x.c&y.c)|((x.c|y.c)&^s.c))>>63)}, st
			}
			if x.id > y.id {
				x, y = y, x
			}
			if x.k == KConst && y.k == KConst && z.k == KConst {
				_, c := bits.Add64(x.c, y.c, z.c)
				return Tuple{s, Const(64, c)}, st
			}
			return Tuple{s, AppR(64, 0, 1, "carry", x, y, z)}, st
		},
		"math/bits.Sub64": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			x, y, z := a[0].(*Term), a[1].(*Term), a[2].(*Term)
			if v, ok := in.fieldBorrow(x, y, z); ok {
				return v, st
			}
			s := Sub(Sub(x, y), z)
			if x.k == KConst && y.k == KConst && z.k == KConst {
				return Tuple{s, Const(64, ((^x.c&y.c)|(^(x.c^y.c)&s.c))>>63)}, st
			}
			if x.k == KConst && y.k == KConst && z.k == KConst {
				_, c := bits.Sub64(x.c, y.c, z.c)
				return Tuple{s, Const(64, c)}, st
			}
			if numMode {
				s, b := subBorrow(x, y, z)
				return Tuple{s, b}, st
			}
			if z.k == KConst && z.c == 0 {
				return Tuple{s, Zext(Ult(x, y), 64)}, st
			}
			if lo, hi, ok := Range(z); ok && lo >= 0 && hi <= 1 {
				return Tuple{s, Ite(Eq(x, y), z, Zext(Ult(x, y), 64))}, st
			}
			return Tuple{s, AppR(64, 0, 1, "borrow", x, y, z)}, st
		},
		"math/bits.Mul64": func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			x, y := a[0].(*Term), a[1].(*Term)
			if numMode {
				h, l := mulWide(x, y)
				return Tuple{h, l}, st
			}
			if x.id > y.id {
				x, y = y, x
			}
			if x.k == KConst && y.k == KConst {
				h, l := bits.Mul64(x.c, y.c)
				return Tuple{Const(64, h), Const(64, l)}, st
			}
			return Tuple{App(64, "mulhi", x, y), Mul(x, y)}, st
		},
	} {
		stdModels[k] = v
	}
}

func (in *Interp) freshBits(st *State, b, n Val) *Term {
	s, ok := b.(Slice)
	k, ok2 := constArg(n)
	if !ok || !ok2 || s.len.k != KConst || sgn(s.len)*8 < k {
		in.diff("operand not resolved")
		return in.unknownBool("fresh bits")
	}
	seen := map[string]int64{}
	for i := int64(0); i < k; i++ {
		t, _ := in.load(st, Ptr{s.o, Add(s.off, Const(64, uint64(i/8)))}, s.elem).(*Term)
		if t == nil {
			in.diff("operand not resolved")
			return in.unknownBool("fresh bits")
		}
		v := Restrict(Bit(t, uint(i%8)), st.pc)
		id := ""
		if v.k == KITE && v.hi.k == KConst && v.lo.k == KConst && v.hi != v.lo {
			if g := v.v.grp.t; g.k == KApp && g.name == "bit" && strings.HasPrefix(g.args[0].name, "rng:") {
				id = fmt.Sprintf("%s bit %d", g.args[0].String(), g.args[1].c)
			}
		}
		if id == "" {
			in.diff(fmt.Sprintf("bit %d is %v, not a random bit (byte written at %s)", i, v, in.siteOf(st, s, i/8)))
			return in.unknownBool("fresh bits")
		}
		if j, dup := seen[id]; dup {
			in.diff(fmt.Sprintf("bits %d and %d are the same random bit", j, i))
			return False
		}
		seen[id] = i
	}
	return True
}

// usesRng: every one of n random bytes has its part in the value of b.
func (in *Interp) usesRng(st *State, a []Val) *Term {
	s, ok := a[0].(Slice)
	from, ok2 := constArg(a[2])
	n, ok3 := constArg(a[3])
	if !ok || !ok2 || !ok3 || s.len.k != KConst {
		in.diff("operand not resolved")
		return in.unknownBool("random bytes used")
	}
	sup, seen := map[*Term]bool{}, map[*Term]bool{}
	for i := int64(0); i < sgn(s.len); i++ {
		t, _ := in.load(st, Ptr{s.o, Add(s.off, Const(64, uint64(i)))}, s.elem).(*Term)
		if t == nil {
			in.diff("operand not resolved")
			return in.unknownBool("random bytes used")
		}
		Support(Restrict(t, st.pc), sup, seen)
	}
	for i := int64(0); i < n; i++ {
		if !sup[rngByte(strArg(a[1]), Const(64, uint64(from+i)))] {
			in.diff(fmt.Sprintf("random byte %d has no influence", from+i))
			return False
		}
	}
	return True
}

func (in *Interp) mkRng(st *State, fn *ssa.Function, name string, good bool) Val {
	t := fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
	o := in.allocType(st, "rng:"+name, t)
	in.rngs[o] = rngInfo{name, good}
	return Ptr{o, Const(64, 0)}
}

func (in *Interp) readFull(st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
	if ch, ok := a[0].(Choice); ok {
		return in.forkCall(st, ch.c, func(s *State) (Val, *State) { return in.readFull(s, fn, []Val{ch.a, a[1]}, c) },
			func(s *State) (Val, *State) { return in.readFull(s, fn, []Val{ch.b, a[1]}, c) })
	}
	if ch, ok := a[1].(Choice); ok {
		return in.forkCall(st, ch.c, func(s *State) (Val, *State) { return in.readFull(s, fn, []Val{a[0], ch.a}, c) },
			func(s *State) (Val, *State) { return in.readFull(s, fn, []Val{a[0], ch.b}, c) })
	}
	if f, ok := a[0].(Iface); ok && f.typ == nil {
		in.addPanic(st, "nil random source", fn)
		return nil, nil
	}
	b, isS := a[1].(Slice)
	if o := in.rngOf(a[0]); o != nil && isS {
		return in.readRng(st, o, b, true), st
	}
	return in.callFn(st, fn, a, nil)
}

func (in *Interp) mayAlias(a, b Val) *Term {
	if c, ok := a.(Choice); ok {
		return Ite(c.c, in.mayAlias(c.a, b), in.mayAlias(c.b, b))
	}
	if c, ok := b.(Choice); ok {
		return Ite(c.c, in.mayAlias(a, c.a), in.mayAlias(a, c.b))
	}
	x, ok1 := a.(Slice)
	y, ok2 := b.(Slice)
	if !ok1 || !ok2 {
		return True
	}
	if x.o != y.o || x.o == nil {
		return False
	}
	return True
}

// ---------- summaries of the field and permutation primitives

// io describes one memory operand of a primitive: argument, first byte, bytes.
type opnd struct {
	arg   int
	words int
}
type prim struct {
	in, out []opnd
	scalars []int // integer arguments
	comm    bool  // first two inputs commute
	ret     bool  // result value
}

func (in *Interp) primModel(fn *ssa.Function) Model {
	if fn.Pkg == nil || fn.Pkg.Pkg == nil {
		return nil
	}
	path := fn.Pkg.Pkg.Path()
	name := fn.Name()
	if m := in.walkPrim(fn); m != nil {
		return m
	}
	if len(in.fields) > 0 {
		if m, ok := in.fieldPrim(fn); ok {
			return m
		}
	}
	switch {
	case isCsidh(path) && in.modes["pke"]:
		return in.csidhTop(fn)
	case strings.HasSuffix(path, "/internal/aes") && !in.modes["prim"]:
		return in.aesModel(fn)
	case isSM3(path) && !in.modes["prim"]:
		return in.sm3Model(fn)
	case strings.HasSuffix(path, "/utils") && name == "cpuid":
		return cpuidModel
	case strings.HasSuffix(path, "/hash/sha3") && name == "keccakF1600" && !in.modes["keccak"] && !in.modes["prim"] && !(in.modes["fpgo"] && len(fn.Blocks) > 0):
		return in.simple("keccakF1600", prim{in: []opnd{{0, 25}}, out: []opnd{{0, 25}}}, 8)
	case strings.HasSuffix(path, "/internal/p434"), strings.HasSuffix(path, "/internal/p503"), strings.HasSuffix(path, "/internal/p751"):
		f := path[len(path)-4:]
		W := map[string]int{"p434": 7, "p503": 8, "p751": 12}[f]
		F := strings.ToUpper(f)
		if m := in.sidhTop(fn, f, W); m != nil && !in.modes["walk"] && !in.modes["curve"] {
			return m
		}
		op := strings.TrimSuffix(name, F)
		if op == name {
			return nil
		}
		if in.modes["fp"] || in.modes["num"] || in.modes["fpgo"] && len(fn.Blocks) > 0 {
			return nil
		}
		switch op {
		case "add":
			return in.simple(f+".add", prim{in: []opnd{{1, W}, {2, W}}, out: []opnd{{0, W}}, comm: true}, 8)
		case "sub":
			return in.simple(f+".sub", prim{in: []opnd{{1, W}, {2, W}}, out: []opnd{{0, W}}}, 8)
		case "adl":
			return in.simple(f+".adl", prim{in: []opnd{{1, 2 * W}, {2, 2 * W}}, out: []opnd{{0, 2 * W}}, comm: true}, 8)
		case "sul":
			return in.simple(f+".sul", prim{in: []opnd{{1, 2 * W}, {2, 2 * W}}, out: []opnd{{0, 2 * W}}}, 8)
		case "mul":
			return in.simple(f+".mul", prim{in: []opnd{{1, W}, {2, W}}, out: []opnd{{0, 2 * W}}, comm: true}, 8)
		case "rdc":
			return in.simple(f+".rdc", prim{in: []opnd{{1, 2 * W}}, out: []opnd{{0, W}, {1, 2 * W}}}, 8)
		case "mod":
			return in.simple(f+".mod", prim{in: []opnd{{0, W}}, out: []opnd{{0, W}}}, 8)
		case "cswap":
			return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
				return nil, in.cswap(st, a[0], a[1], a[2].(*Term), W)
			}
		}
	}
	return nil
}

func (in *Interp) cswap(st *State, x, y Val, ch *Term, W int) *State {
	p, ok1 := x.(Ptr)
	q, ok2 := y.(Ptr)
	if !ok1 || !ok2 || p.o == nil || q.o == nil {
		in.imprecise("cswap of unresolved pointers")
		return st
	}
	if pm(ch)>>1 != 0 {
		in.imprecise("cswap choice not a bit")
	}
	c := Bit(ch, 0)
	u64 := types.Typ[types.Uint64]
	if in.ct != nil {
		sec := in.isSecret(ch)
		var ps []Ptr
		for i := 0; i < W; i++ {
			for _, b := range []Ptr{p, q} {
				k := Ptr{b.o, Add(b.off, Const(64, uint64(8*i)))}
				t, ok := in.load(st, k, u64).(*Term)
				sec = sec || !ok || in.isSecret(t)
				ps = append(ps, k)
			}
		}
		for _, k := range ps {
			in.store(st, k, u64, in.ctFresh(64, sec), True)
		}
		return st
	}
	var us, vs []Val
	for i := 0; i < W; i++ {
		k := Const(64, uint64(8*i))
		us = append(us, in.load(st, Ptr{p.o, Add(p.off, k)}, u64))
		vs = append(vs, in.load(st, Ptr{q.o, Add(q.off, k)}, u64))
	}
	for i := 0; i < W; i++ {
		k := Const(64, uint64(8*i))
		in.store(st, Ptr{p.o, Add(p.off, k)}, u64, mergeVal(c, vs[i], us[i]), True)
		in.store(st, Ptr{q.o, Add(q.off, k)}, u64, mergeVal(c, us[i], vs[i]), True)
	}
	return st
}

func ptrBase(v Val) (Ptr, bool) {
	switch x := v.(type) {
	case Ptr:
		return x, x.o != nil
	case Slice:
		return Ptr{x.o, x.off}, x.o != nil
	}
	return Ptr{}, false
}

const liftVars = 3

// gateVars collects the decision variables of the arguments (nil when too many).
func gateVars(args []*Term) []*BVar {
	set := map[*BVar]bool{}
	seen := map[*Term]bool{}
	var out []*BVar
	ok := true
	var rec func(t *Term)
	rec = func(t *Term) {
		if !ok || t.k != KITE || seen[t] {
			return
		}
		seen[t] = true
		if !set[t.v] {
			set[t.v] = true
			out = append(out, t.v)
			if len(out) > liftVars {
				ok = false
				return
			}
		}
		rec(t.hi)
		rec(t.lo)
	}
	for _, a := range args {
		rec(a)
	}
	if !ok {
		return nil
	}
	return out
}

// multiApp is an n-output uninterpreted operation.
func multiApp(name string, args []*Term, w uint8, n int) []*Term {
	vs := gateVars(args)
	if len(vs) > 0 {
		v := vs[0]
		for _, x := range vs {
			if x.less(v) {
				v = x
			}
		}
		c := varNode(v)
		hi := make([]*Term, len(args))
		lo := make([]*Term, len(args))
		for i, a := range args {
			hi[i], lo[i] = cof(a, v)
		}
		h := multiApp(name, hi, w, n)
		l := multiApp(name, lo, w, n)
		for i := range h {
			h[i] = Ite(c, h[i], l[i])
		}
		return h
	}
	pack := App(64, name+"!", args...)
	out := make([]*Term, n)
	for i := range out {
		out[i] = App(w, fmt.Sprintf("%s.%d", name, i), pack)
	}
	return out
}

// simple builds the model of a primitive that reads and writes fixed operands.
func (in *Interp) simple(name string, p prim, ws int64) Model {
	return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
		in.primCalls[name]++
		et := types.Typ[types.Uint64]
		var groups [][]*Term
		for _, o := range p.in {
			b, ok := ptrBase(a[o.arg])
			if !ok {
				if q, isP := a[o.arg].(Ptr); isP && q.o == nil {
					in.addPanic(st, "nil pointer in "+name, fn)
					return nil, nil
				}
				if ch, isC := a[o.arg].(Choice); isC {
					i := o.arg
					return in.forkCall(st, ch.c, func(s *State) (Val, *State) {
						x := append([]Val(nil), a...)
						x[i] = ch.a
						return in.simple(name, p, ws)(in, s, fn, x, c)
					}, func(s *State) (Val, *State) {
						x := append([]Val(nil), a...)
						x[i] = ch.b
						return in.simple(name, p, ws)(in, s, fn, x, c)
					})
				}
				in.imprecise("unresolved operand of " + name)
				for _, v := range a {
					in.havocPtr(st, v)
				}
				return freshUnknown(resultType(fn.Signature), name), st
			}
			var g []*Term
			for k := 0; k < o.words; k++ {
				t, ok := in.load(st, Ptr{b.o, Add(b.off, Const(64, uint64(int64(k)*ws)))}, et).(*Term)
				if !ok {
					t = freshUnknown(et, name).(*Term)
				}
				g = append(g, t)
			}
			groups = append(groups, g)
		}
		if p.comm && len(groups) >= 2 && lessTerms(groups[1], groups[0]) {
			groups[0], groups[1] = groups[1], groups[0]
		}
		var args []*Term
		for _, g := range groups {
			args = append(args, g...)
		}
		for _, s := range p.scalars {
			args = append(args, a[s].(*Term))
		}
		n := 0
		for _, o := range p.out {
			n += o.words
		}
		var outs []*Term
		if in.ct != nil {
			sec := false
			for _, t := range args {
				sec = sec || in.isSecret(t)
			}
			for k := 0; k <= n; k++ {
				outs = append(outs, in.ctFresh(64, sec))
			}
		} else {
			outs = multiApp(name, args, 64, n+1)
		}
		i := 0
		for _, o := range p.out {
			b, ok := ptrBase(a[o.arg])
			if !ok {
				in.imprecise("unresolved result operand of " + name)
				return nil, st
			}
			for k := 0; k < o.words; k++ {
				in.store(st, Ptr{b.o, Add(b.off, Const(64, uint64(int64(k)*ws)))}, et, outs[i], True)
				i++
			}
		}
		if p.ret {
			rt := resultType(fn.Signature)
			return Trunc(outs[n], width(rt)), st
		}
		return nil, st
	}
}

func lessTerms(a, b []*Term) bool {
	for i := range a {
		if a[i].id != b[i].id {
			return a[i].id < b[i].id
		}
	}
	return false
}

var sidhBits = map[string][2]int{"p434": {216, 217}, "p503": {250, 252}, "p751": {372, 378}}
var sidhLen = map[string]int{"p434": 55, "p503": 63, "p751": 94}

// sidhTop summarises the four isogeny walks of one field.
func (in *Interp) sidhTop(fn *ssa.Function, f string, W int) Model {
	var bits int
	name := fn.Name()
	switch name {
	case "PublicKeyGenA", "DeriveSecretA":
		bits = sidhBits[f][0]
	case "PublicKeyGenB", "DeriveSecretB":
		bits = sidhBits[f][1]
	default:
		return nil
	}
	gen := strings.HasPrefix(name, "Public")
	return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
		in.primCalls[f+"."+name]++
		prv, ok := a[1].(Slice)
		if !ok {
			in.imprecise("unresolved scalar of " + name)
			for _, v := range a {
				in.havocPtr(st, v)
			}
			return nil, st
		}
		nb := (bits + 7) / 8
		if !in.require(st, le(Const(64, uint64(nb)), prv.len), "index out of range (scalar shorter than SecretBitLen)", fn) {
			return nil, nil
		}
		var args []*Term
		u8, u64 := types.Typ[types.Uint8], types.Typ[types.Uint64]
		for i := 0; i < nb; i++ {
			t := in.load(st, Ptr{prv.o, Add(prv.off, Const(64, uint64(i)))}, u8).(*Term)
			if i == nb-1 && bits%8 != 0 {
				t = BAnd(t, Const(8, uint64(1)<<(bits%8)-1))
			}
			args = append(args, t)
		}
		pubIdx := 2
		if gen {
			pubIdx = 0
		}
		pt, ok := ptrBase(a[pubIdx])
		if !ok {
			if ch, isC := a[pubIdx].(Choice); isC {
				in.imprecise(fmt.Sprintf("point operand chosen by %v", ch.c))
			}
			in.imprecise("unresolved points of " + name)
			return nil, st
		}
		word := func(i, k int) *Term { // coefficient i of 6, word k
			return Const(64, uint64(i*96+8*k))
		}
		if gen {
			outs := multiApp(f+"."+name, args, 64, 6*W)
			for i := 0; i < 6; i++ {
				for k := 0; k < W; k++ {
					in.store(st, Ptr{pt.o, Add(pt.off, word(i, k))}, u64, outs[i*W+k], True)
				}
			}
			return nil, st
		}
		for i := 0; i < 6; i++ {
			for k := 0; k < W; k++ {
				args = append(args, in.load(st, Ptr{pt.o, Add(pt.off, word(i, k))}, u64).(*Term))
			}
		}
		ss, ok := a[0].(Slice)
		if !ok {
			in.imprecise("unresolved output of " + name)
			return nil, st
		}
		n := 2 * sidhLen[f]
		if !in.require(st, le(Const(64, uint64(n)), ss.len), "output byte slice too short", fn) {
			return nil, nil
		}
		outs := multiApp(f+"."+name, args, 8, n)
		for i, t := range outs {
			in.store(st, Ptr{ss.o, Add(ss.off, Const(64, uint64(i)))}, u8, t, True)
		}
		return nil, st
	}
}

// cpuidModel: every register of every leaf is unknown.
func cpuidModel(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
	x, y := a[0].(*Term), a[1].(*Term)
	r := Tuple{}
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		// by position: C24 checks the offsets the assembly routine stores to
		nm := []string{"eax", "ebx", "ecx", "edx"}[i]
		r = append(r, Sym(width(fn.Signature.Results().At(i).Type()), fmt.Sprintf("cpuid(%v,%v).%s", x, y, nm)))
	}
	return r, st
}

// extrapolate advances the counters of h2, an object that took two identical
// steps, to the value they have after k steps; h0 and h1 are the same object
// after none and one. Counters are the scalar integers that grow by the same
// amount in every step.
func (in *Interp) extrapolate(st *State, h0, h1, h2, kv Val) *Term {
	k, ok := constArg(kv)
	var p [3]Ptr
	for i, v := range []Val{h0, h1, h2} {
		f, ok2 := v.(Iface)
		q, ok3 := f.v.(Ptr)
		if !ok || !ok2 || !ok3 || q.o == nil || q.off.k != KConst || q.o.typ == nil {
			return False
		}
		p[i] = q
	}
	done, others, cut := 0, 0, false
	for _, l := range flatten(p[2].o.typ) {
		if !isInt(l.typ) || isBool(l.typ) || inArray(p[2].o.typ, l.off) {
			continue
		}
		var v [3]uint64
		known := true
		for i := range p {
			t, ok := in.loadLeafConst(st, p[i].o, l.off, l.typ).(*Term)
			if !ok || t.k != KConst {
				known = false
				break
			}
			v[i] = t.c
		}
		w := width(l.typ)
		d := v[1] - v[0]
		if !known || d&full(w) == 0 || (v[2]-v[1])&full(w) != d&full(w) {
			others++
			continue
		}
		x := v[0] + d*uint64(k)
		if x&full(w) != x {
			cut = true
		}
		in.putCell(st, p[2].o, l.off, l.w, Const(w, x&full(w)))
		done++
	}
	if done != 1 || cut && others > 0 {
		return False
	}
	return True
}

func mul64(x, y uint64) (hi, lo uint64) { return bits.Mul64(x, y) }
