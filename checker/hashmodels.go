package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// sm3Model summarises the block compression of SM3: a method (h, blocks...) of
// the digest, and the reference in the harness, as the same uninterpreted
// function of chaining value and block.
func (in *Interp) sm3Model(fn *ssa.Function) Model {
	if fn.Name() != "compress" && fn.Name() != "vCompress" {
		return nil
	}
	ps := fn.Signature.Params()
	recv := fn.Signature.Recv()
	harness := fn.Name() == "vCompress"
	if harness != (recv == nil) {
		return nil
	}
	hoff := int64(-1)
	pt, ok := fn.Params[0].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	isH := func(t types.Type) bool {
		a, ok := t.Underlying().(*types.Array)
		return ok && a.Len() == 8 && types.Identical(a.Elem(), types.Typ[types.Uint32])
	}
	if isH(pt.Elem()) {
		hoff = 0
	} else if s, ok := pt.Elem().Underlying().(*types.Struct); ok {
		var fs []*types.Var
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, s.Field(i))
		}
		for i, o := range sizes.Offsetsof(fs) {
			if isH(fs[i].Type()) {
				hoff = o
			}
		}
	}
	if hoff < 0 || (!harness && (ps.Len() < 1 || ps.Len() > 2)) {
		return nil
	}
	return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
		in.primCalls["sm3.cf"]++
		p, ok1 := a[0].(Ptr)
		s, ok2 := a[1].(Slice)
		if !ok1 || !ok2 || p.o == nil {
			in.imprecise("unresolved operand of the SM3 compression")
			return nil, st
		}
		n := int64(1)
		if len(a) > 2 {
			k, ok := constArg(a[2])
			if !ok && in.modes["counts"] { // contents are of no interest
				for i := int64(0); i < 8; i++ {
					in.runs++
					in.store(st, Ptr{p.o, Add(p.off, Const(64, uint64(hoff+4*i)))}, types.Typ[types.Uint32], Sym(32, fmt.Sprintf("sm3.run%d", in.runs)), True)
				}
				return nil, st
			}
			if !ok {
				in.imprecise("unknown number of blocks")
				return nil, st
			}
			n = k
		}
		u32, u8 := types.Typ[types.Uint32], types.Typ[types.Uint8]
		for b := int64(0); b < n; b++ {
			if !in.require(st, Not(Slt(s.len, Const(64, uint64(64*b+64)))), "slice bounds out of range", fn) {
				return nil, nil
			}
			var args []*Term
			for i := int64(0); i < 8; i++ {
				args = append(args, in.load(st, Ptr{p.o, Add(p.off, Const(64, uint64(hoff+4*i)))}, u32).(*Term))
			}
			for i := int64(0); i < 64; i++ {
				args = append(args, in.load(st, Ptr{s.o, Add(s.off, Const(64, uint64(64*b+i)))}, u8).(*Term))
			}
			for i := range in.lastBlock {
				x := args[8+i]
				if in.lastBlock[i] != nil {
					x = Ite(st.pc, x, in.lastBlock[i])
				}
				in.lastBlock[i] = x
			}
			outs := multiApp("sm3.cf", args, 32, 8)
			for i := int64(0); i < 8; i++ {
				in.store(st, Ptr{p.o, Add(p.off, Const(64, uint64(hoff+4*i)))}, u32, outs[i], True)
			}
		}
		return nil, st
	}
}

func isSM3(path string) bool { return strings.HasSuffix(path, "/hash/sm3") }

// liftN evaluates leaf on the ungated alternatives of args.
func liftN(args []*Term, leaf func([]*Term) []*Term) []*Term {
	vs := gateVars(args)
	if len(vs) == 0 {
		return leaf(args)
	}
	v := vs[0]
	for _, x := range vs {
		if x.less(v) {
			v = x
		}
	}
	hi := make([]*Term, len(args))
	lo := make([]*Term, len(args))
	for i, a := range args {
		hi[i], lo[i] = cof(a, v)
	}
	h, l := liftN(hi, leaf), liftN(lo, leaf)
	out := make([]*Term, len(h))
	c := varNode(v)
	for i := range h {
		out[i] = Ite(c, h[i], l[i])
	}
	return out
}

// aesModel summarises AES key expansion and block operations. Schedules are
// uninterpreted words; a block operation on a complete schedule of the same
// implementation, direction and length is the cipher under the schedule's key.
func (in *Interp) aesModel(fn *ssa.Function) Model {
	m := in.aesModel1(fn)
	if m == nil {
		return nil
	}
	return choiceless(m)
}

// choiceless runs m on each alternative of its arguments.
func choiceless(m Model) Model {
	var f Model
	f = func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
		for i, x := range a {
			ch, ok := x.(Choice)
			if !ok {
				continue
			}
			alt := func(v Val) func(*State) (Val, *State) {
				return func(s *State) (Val, *State) {
					b := append([]Val(nil), a...)
					b[i] = v
					return f(in, s, fn, b, c)
				}
			}
			return in.forkCall(st, ch.c, alt(ch.a), alt(ch.b))
		}
		return m(in, st, fn, a, c)
	}
	return f
}

func (in *Interp) aesModel1(fn *ssa.Function) Model {
	switch fn.Name() {
	case "encryptBlockGo", "decryptBlockGo", "expandKeyGo", "encryptBlockAsm", "decryptBlockAsm", "expandKeyAsm":
	default:
		return nil
	}
	name := fn.Name()
	impl := "Go"
	if strings.HasSuffix(name, "Asm") {
		impl = "Asm"
	}
	u32, u8 := types.Typ[types.Uint32], types.Typ[types.Uint8]
	at := func(p Ptr, off int64) Ptr { return Ptr{p.o, Add(p.off, Const(64, uint64(off)))} }
	if strings.HasPrefix(name, "expandKey") {
		return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
			in.primCalls["aes."+name]++
			var kb int64
			var ptrs []Ptr
			if impl == "Go" {
				key, isSlice := a[0].(Slice)
				if !isSlice {
					in.imprecise(fmt.Sprintf("unresolved key: %v", a[0]))
					return nil, st
				}
				n, ok := constArg(key.len)
				if !ok || (n != 16 && n != 24 && n != 32) {
					in.imprecise("AES key expansion with an unexpected key length")
					return nil, st
				}
				kb = n
				for _, x := range a[1:] {
					s, ok := x.(Slice)
					if !ok || s.len.k != KConst || int64(s.len.c) != kb+28 {
						in.imprecise("AES key expansion into a schedule of unexpected length")
						return nil, st
					}
				}
			} else {
				n, ok := constArg(a[0])
				if !ok || (n != 10 && n != 12 && n != 14) {
					in.imprecise("AES key expansion with an unexpected number of rounds")
					return nil, st
				}
				kb = (n - 6) * 4
				a = a[1:]
			}
			for _, x := range a {
				p, ok := ptrBase(x)
				if !ok {
					in.imprecise("unresolved operand of the AES key expansion")
					return nil, st
				}
				ptrs = append(ptrs, p)
			}
			var key []*Term
			for i := int64(0); i < kb; i++ {
				key = append(key, in.load(st, at(ptrs[0], i), u8).(*Term))
			}
			w := kb + 28
			outs := multiApp("aes.ek"+impl, key, 32, int(2*w))
			for i := int64(0); i < w; i++ {
				in.store(st, at(ptrs[1], 4*i), u32, outs[i], True)
				in.store(st, at(ptrs[2], 4*i), u32, outs[w+i], True)
			}
			return nil, st
		}
	}
	dir := name[:3]
	return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
		in.primCalls["aes."+name]++
		if impl == "Go" {
			return in.splitLen(st, a[0], func(s *State, xk Slice, n int64) (Val, *State) {
				if n != 44 && n != 52 && n != 60 {
					in.imprecise("AES block operation with an unexpected schedule length")
					return nil, s
				}
				for _, x := range a[1:] {
					b, ok := x.(Slice)
					if !ok {
						in.imprecise("unresolved operand of the AES block operation")
						return nil, s
					}
					if !in.require(s, Not(Slt(b.len, Const(64, 16))), "index out of range", fn) {
						return nil, nil
					}
				}
				return in.aesBlock(s, impl, dir, n, xk, a[1], a[2], at)
			})
		}
		return in.splitInt(st, a[0], func(s *State, n int64) (Val, *State) {
			if n != 10 && n != 12 && n != 14 {
				in.imprecise("AES block operation with an unexpected number of rounds")
				return nil, s
			}
			return in.aesBlock(s, impl, dir, 4*(n+1), a[1], a[2], a[3], at)
		})
	}
}

func (in *Interp) splitInt(st *State, v Val, f func(*State, int64) (Val, *State)) (Val, *State) {
	t, ok := v.(*Term)
	if !ok {
		in.imprecise("unknown length")
		return nil, st
	}
	if t.k == KITE {
		return in.forkCall(st, varNode(t.v), func(s *State) (Val, *State) { return in.splitInt(s, t.hi, f) },
			func(s *State) (Val, *State) { return in.splitInt(s, t.lo, f) })
	}
	if t.k != KConst {
		in.imprecise("unknown number of rounds")
		return nil, st
	}
	return f(st, int64(t.c))
}

func (in *Interp) splitLen(st *State, v Val, f func(*State, Slice, int64) (Val, *State)) (Val, *State) {
	if ch, ok := v.(Choice); ok {
		return in.forkCall(st, ch.c, func(s *State) (Val, *State) { return in.splitLen(s, ch.a, f) },
			func(s *State) (Val, *State) { return in.splitLen(s, ch.b, f) })
	}
	s, ok := v.(Slice)
	if !ok {
		in.imprecise("unresolved slice")
		return nil, st
	}
	return in.splitInt(st, s.len, func(st *State, n int64) (Val, *State) { return f(st, s, n) })
}

func (in *Interp) aesBlock(st *State, impl, dir string, words int64, xk, dst, src Val, at func(Ptr, int64) Ptr) (Val, *State) {
	u32, u8 := types.Typ[types.Uint32], types.Typ[types.Uint8]
	k, ok1 := ptrBase(xk)
	d, ok2 := ptrBase(dst)
	s, ok3 := ptrBase(src)
	if !ok1 || !ok2 || !ok3 {
		in.imprecise("unresolved operand of the AES block operation")
		return nil, st
	}
	var args []*Term
	for i := int64(0); i < words; i++ {
		args = append(args, in.load(st, at(k, 4*i), u32).(*Term))
	}
	for i := int64(0); i < 16; i++ {
		args = append(args, in.load(st, at(s, i), u8).(*Term))
	}
	outs := liftN(args, func(x []*Term) []*Term {
		sch, blk := x[:words], x[words:]
		kb := words - 28
		base := 0
		if dir == "dec" {
			base = int(words)
		}
		if sch[0].k == KApp && len(sch[0].args) == 1 {
			pack := sch[0].args[0]
			want := multiApp("aes.ek"+impl, pack.args, 32, int(2*words))
			good := int64(len(pack.args)) == kb
			for i := range sch {
				good = good && sch[i] == want[base+i]
			}
			if good {
				return multiApp("aes."+dir, append(append([]*Term(nil), pack.args...), blk...), 8, 16)
			}
		}
		return multiApp("aes.wrongSchedule."+impl+dir, x, 8, 16)
	})
	for i := int64(0); i < 16; i++ {
		in.store(st, at(d, i), u8, outs[i], True)
	}
	return nil, st
}
