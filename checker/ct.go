package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Mode "ct": dependency tracking for constant time. Atoms named secret… (and
// bytes of a random source of that name) are secret; summarised primitives
// return fresh atoms that are secret when any operand is. Every branch, index,
// slice bound, length, division and non-constant-time library comparison the
// analysis meets is one obligation: it must not depend on a secret.

type ctState struct {
	memo  map[*Term]bool
	sites map[string]*ctSite
	order []string
	n     int
}

type ctSite struct {
	what, where, fn, detail string
	bad                     bool
	hits                    int
}

func secretName(n string) bool {
	n = strings.TrimPrefix(n, "rng:")
	return strings.HasPrefix(n, "secret")
}

func (in *Interp) isSecret(t *Term) bool {
	if t == nil {
		return false
	}
	if in.ct == nil {
		return false
	}
	if r, ok := in.ct.memo[t]; ok {
		return r
	}
	r := false
	in.ct.memo[t] = false
	switch t.k {
	case KSym:
		r = secretName(t.name)
	case KITE:
		r = in.isSecret(t.v.grp.t) || in.isSecret(t.hi) || in.isSecret(t.lo)
	case KBV:
		for _, m := range t.ms {
			for _, f := range m.fs {
				r = r || in.isSecret(f.t)
			}
		}
	case KLin:
		for _, l := range t.lin {
			r = r || in.isSecret(l.t)
		}
	case KApp:
		r = strings.HasPrefix(t.name, "rng:secret")
		for _, a := range t.args {
			r = r || in.isSecret(a)
		}
	}
	in.ct.memo[t] = r
	return r
}

func (in *Interp) ctFresh(w uint8, secret bool) *Term {
	in.ct.n++
	p := "public"
	if secret {
		p = "secret"
	}
	return Sym(w, fmt.Sprintf("%s~%d", p, in.ct.n))
}

// ctUse records one place whose timing depends on t.
func (in *Interp) ctUse(what string, fn *ssa.Function, pos token.Pos, ts ...*Term) {
	if in.ct == nil || fn == nil {
		return
	}
	if !pos.IsValid() {
		pos = in.curPos
	}
	p := in.fset.Position(pos)
	if strings.Contains(p.Filename, "zz_verif_") || strings.Contains(p.Filename, "/verifrt/") {
		return
	}
	w := relPos(p)
	k := what + "@" + w
	s := in.ct.sites[k]
	if s == nil {
		s = &ctSite{what: what, where: w, fn: fn.String()}
		in.ct.sites[k] = s
		in.ct.order = append(in.ct.order, k)
	}
	for _, t := range ts {
		if t != nil && t.k != KConst && in.isSecret(t) {
			if !s.bad {
				s.detail = what + " depends on secret data: " + tstr(t, 3)
			}
			s.bad = true
			s.hits++
			// everything after a branch on a secret depends on it; what was
			// found is reported and the analysis of this harness ends
			if (what == "branch" || what == "index") && s.hits > 3 {
				panic(ctStop{})
			}
		}
	}
}

type ctStop struct{}

func (in *Interp) ctReport() {
	if in.ct == nil {
		return
	}
	for _, k := range in.ct.order {
		s := in.ct.sites[k]
		in.addObl(Obligation{Harness: in.harness, Name: s.what + " in " + shortFn(s.fn) + " does not depend on a secret", OK: !s.bad, Where: s.where, Detail: s.detail})
	}
}

func shortFn(s string) string { return strings.ReplaceAll(s, modulePath+"/", "") }

// ctEval checks one instruction before it is evaluated.
func (in *Interp) ctEval(fr *frame, v ssa.Value) {
	tm := func(x ssa.Value) *Term {
		if x == nil {
			return nil
		}
		t, _ := in.val(fr, x).(*Term)
		return t
	}
	switch i := v.(type) {
	case *ssa.IndexAddr:
		in.ctUse("index", fr.fn, i.Pos(), tm(i.Index))
	case *ssa.Index:
		in.ctUse("index", fr.fn, i.Pos(), tm(i.Index))
	case *ssa.Slice:
		in.ctUse("slice bound", fr.fn, i.Pos(), tm(i.Low), tm(i.High), tm(i.Max))
	case *ssa.MakeSlice:
		in.ctUse("length", fr.fn, i.Pos(), tm(i.Len), tm(i.Cap))
	case *ssa.Lookup:
		in.ctUse("map key", fr.fn, i.Pos(), tm(i.Index))
	case *ssa.BinOp:
		switch i.Op {
		case token.QUO, token.REM:
			in.ctUse("division", fr.fn, i.Pos(), tm(i.X), tm(i.Y))
		case token.SHL, token.SHR:
			// a negative count panics: the sign test is a branch
			if b, ok := i.Y.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned == 0 {
				in.ctUse("signed shift count", fr.fn, i.Pos(), tm(i.Y))
			}
		}
	}
}

// ctWiden keeps secret terms small.
func (in *Interp) ctWiden(fr *frame, src ssa.Value, v Val) Val {
	switch t := v.(type) {
	case *Term:
		if b, ok := src.(*ssa.BinOp); ok && (b.Op == token.EQL || b.Op == token.NEQ) {
			if _, basic := b.X.Type().Underlying().(*types.Basic); !basic || isStringT(b.X.Type()) {
				if _, ptr := b.X.Type().Underlying().(*types.Pointer); !ptr {
					in.ctUse("comparison of aggregates", fr.fn, b.Pos(), t)
				}
			}
		}
		if t.k != KConst && ctSize(t) > in.ctMax() && in.isSecret(t) {
			return in.ctFresh(t.w, true)
		}
	case Tuple:
		for i, x := range t {
			if y, ok := x.(*Term); ok && y.k != KConst && ctSize(y) > in.ctMax() && in.isSecret(y) {
				t[i] = in.ctFresh(y.w, true)
			}
		}
	}
	return v
}

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// ctContent: does the memory a slice or array pointer covers hold a secret?
func (in *Interp) ctContent(st *State, v Val) bool {
	s, ok := v.(Slice)
	if !ok || s.o == nil {
		if f, isI := v.(Iface); isI && f.v != nil {
			return in.ctContent(st, f.v)
		}
		return false
	}
	_, hi, ok := Range(s.len)
	if !ok || hi > 1<<14 {
		return true
	}
	if _, isB := s.elem.Underlying().(*types.Basic); !isB {
		return true
	}
	n := sizes.Sizeof(s.elem)
	for i := int64(0); i < hi; i++ {
		t, ok := in.load(st, Ptr{s.o, Add(s.off, Const(64, uint64(i*n)))}, s.elem).(*Term)
		if !ok || in.isSecret(t) {
			return true
		}
	}
	return false
}

// ctCall: library code that is not constant time.
func (in *Interp) ctCall(st *State, fn *ssa.Function, as []Val, pos token.Pos) {
	if fn.Pkg == nil {
		return
	}
	switch fn.Pkg.Pkg.Path() {
	case "bytes", "strings", "reflect", "internal/bytealg", "fmt", "slices", "math/big", "sort":
	default:
		return
	}
	bad := Const(1, 0)
	for _, a := range as {
		if t, ok := a.(*Term); ok && in.isSecret(t) {
			bad = t
		}
		if in.ctContent(st, a) {
			bad = Sym(1, "secret content")
		}
	}
	in.ctUse("call of "+fn.Name(), fr0(in), pos, bad)
}

func fr0(in *Interp) *ssa.Function { return in.curFn }

// ctMax bounds the size of a secret term. Where bodies of field primitives
// and permutations are analysed nothing about the values themselves matters.
func (in *Interp) ctMax() int32 {
	if in.modes["fpgo"] {
		return 4
	}
	return 24
}

func ctSize(t *Term) int32 {
	switch t.k {
	case KITE:
		return t.sz
	case KBV:
		n := int32(0)
		for _, m := range t.ms {
			n += int32(len(m.fs))
		}
		return n
	}
	return 1
}
