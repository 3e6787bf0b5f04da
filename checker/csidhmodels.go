package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// leavesOf lists the integer leaves of the object p points to that have the given width and signedness.
func (in *Interp) leavesOf(p Val, w int64, signed bool) (Ptr, []leaf, bool) {
	q, ok := p.(Ptr)
	if !ok || q.o == nil || q.off.k != KConst || q.o.typ == nil {
		return Ptr{}, nil, false
	}
	var out []leaf
	base := sgn(q.off)
	for _, l := range flatten(q.o.typ) {
		if l.off >= base && isInt(l.typ) && l.w == w && isSigned(l.typ) == signed {
			out = append(out, l)
		}
	}
	return q, out, true
}

// csidhTop summarises the four operations of the CSIDH package for its users.
func (in *Interp) csidhTop(fn *ssa.Function) Model {
	if fn.Signature.Recv() != nil {
		return nil
	}
	name := fn.Name()
	switch name {
	case "GeneratePrivateKey", "GeneratePublicKey", "DeriveSecret":
	default:
		return nil
	}
	return func(in *Interp, st *State, fn *ssa.Function, a []Val, c *ssa.CallCommon) (Val, *State) {
		in.primCalls["csidh."+name]++
		for i := range a {
			if ch, ok := a[i].(Choice); ok {
				rec := in.csidhTop(fn)
				return in.forkCall(st, ch.c, func(s *State) (Val, *State) {
					x := append([]Val(nil), a...)
					x[i] = ch.a
					return rec(in, s, fn, x, c)
				}, func(s *State) (Val, *State) {
					x := append([]Val(nil), a...)
					x[i] = ch.b
					return rec(in, s, fn, x, c)
				})
			}
		}
		fail := func(s string) (Val, *State) {
			in.imprecise(s)
			for _, v := range a {
				in.havocPtr(st, v)
			}
			return freshUnknown(resultType(fn.Signature), name), st
		}
		keyPart := func(v Val, w int64, signed bool, n int) ([]*Term, Ptr, []leaf, bool) {
			p, ls, ok := in.leavesOf(v, w, signed)
			if !ok || len(ls) < n {
				return nil, p, nil, false
			}
			ls = ls[:n]
			var ts []*Term
			for _, l := range ls {
				t, ok := in.loadLeafConst(st, p.o, l.off, l.typ).(*Term)
				if !ok {
					return nil, p, nil, false
				}
				ts = append(ts, t)
			}
			return ts, p, ls, true
		}
		rng, isI := a[len(a)-1].(Iface)
		if !isI {
			return fail("unresolved random source of csidh." + name)
		}
		if rng.typ == nil || in.isNil(rng.v) == True {
			in.addPanic(st, "nil random source", fn)
			return nil, nil
		}
		switch name {
		case "GeneratePrivateKey":
			p, ls, ok := in.leavesOf(a[0], 1, true)
			if !ok || len(ls) < 37 {
				return fail("unresolved key of csidh.GeneratePrivateKey")
			}
			in.csidhCtr++
			for i, l := range ls[:37] {
				in.putCell(st, p.o, l.off, 1, Sym(8, fmt.Sprintf("csidh.sk#%d[%d]", in.csidhCtr, i)))
			}
			e := Sym(1, fmt.Sprintf("csidh.keygen.failed#%d", in.csidhCtr))
			return mergeVal(e, errIface("rng error"), Iface{}), st
		case "GeneratePublicKey":
			sk, _, _, ok1 := keyPart(a[1], 1, true, 37)
			p, ls, ok2 := in.leavesOf(a[0], 8, false)
			if !ok1 || !ok2 || len(ls) < 8 {
				return fail("unresolved key of csidh.GeneratePublicKey")
			}
			for i, t := range multiApp("csidh.pub", sk, 64, 8) {
				in.putCell(st, p.o, ls[i].off, 8, t)
			}
			return nil, st
		}
		pk, _, _, ok1 := keyPart(a[1], 8, false, 8)
		sk, _, _, ok2 := keyPart(a[2], 1, true, 37)
		out, ok3 := ptrBase(a[0])
		if !ok1 || !ok2 || !ok3 {
			return fail("unresolved operand of csidh.DeriveSecret")
		}
		valid := multiApp("csidh.valid", pk, 1, 1)[0]
		for i, t := range multiApp("csidh.agree", append(append([]*Term{}, pk...), sk...), 8, 64) {
			in.store(st, Ptr{out.o, Add(out.off, Const(64, uint64(i)))}, types.Typ[types.Uint8], t, Restrict(valid, st.pc))
		}
		return valid, st
	}
}

func isCsidh(path string) bool { return strings.HasSuffix(path, "/dh/csidh") }
