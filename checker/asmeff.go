package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// asmEffect: what an assembly routine writes.
type asmEffect struct {
	writes  map[int]string    // argument index -> witness
	globals map[string]string // symbol -> witness
	unknown map[string]string
	argSym  map[int]map[string]bool
}

// regSet: what a register may hold: argument pointers ("a0"...), "sp", a symbol
// address ("s:name"); an empty set is data.
type regSet map[string]bool

type asmRegs map[string]regSet

func (r asmRegs) clone() asmRegs {
	n := asmRegs{}
	for k, v := range r {
		n[k] = v
	}
	return n
}

func unionRS(a, b regSet) regSet {
	if len(b) == 0 {
		return a
	}
	n := regSet{}
	for k := range a {
		n[k] = true
	}
	for k := range b {
		n[k] = true
	}
	return n
}

func sameRS(a, b regSet) bool {
	if len(a) != len(b) {
		return false
	}
	for k := range a {
		if !b[k] {
			return false
		}
	}
	return true
}

// asmArgIndex maps offsets of the argument area to parameter numbers.
func asmArgIndex(p *Program, t *ssa.Function, arch string) map[int64]int {
	m := map[int64]int{}
	sz := sizesFor(arch)
	off := int64(0)
	for i, pa := range t.Params {
		al := sz.Alignof(pa.Type())
		off = (off + al - 1) / al * al
		n := sz.Sizeof(pa.Type())
		for k := int64(0); k < n; k++ {
			m[off+k] = i
		}
		off += n
	}
	return m
}

// memDst: does the instruction write its last operand?
func asmWritesMem(arch, op string) bool {
	if arch == "arm64" {
		b, _, _ := strings.Cut(op, ".")
		switch {
		case strings.HasPrefix(b, "ST"), b == "VST1", b == "FMOVQ", b == "SWPD", strings.HasPrefix(b, "VST"):
			return true
		case strings.HasPrefix(b, "MOV"), strings.HasPrefix(b, "FMOV"):
			return true
		}
		return false
	}
	switch {
	case strings.HasPrefix(op, "CMP"), strings.HasPrefix(op, "TEST"), strings.HasPrefix(op, "PREFETCH"), strings.HasPrefix(op, "UCOMIS"), op == "BTQ", op == "BTL", strings.HasPrefix(op, "PUSH"), op == "CALL", op == "JMP", strings.HasPrefix(op, "MUL") && !strings.HasPrefix(op, "MULX"), op == "NOP", op == "DIVQ":
		return false
	}
	return true
}

func (a *effAna) asmEff(t *ssa.Function) *asmEffect {
	k := t.Pkg.Pkg.Path() + "." + t.Name()
	if e := a.asmSum[k]; e != nil {
		return e
	}
	e := &asmEffect{writes: map[int]string{}, globals: map[string]string{}, unknown: map[string]string{}}
	a.asmSum[k] = e
	ad := a.asm[t.Pkg.Pkg.Path()]
	f := ad.funcs[t.Name()]
	if f == nil {
		for i := range t.Params {
			e.writes[i] = "missing assembly of " + t.Name()
		}
		return e
	}
	args := asmArgIndex(a.p, t, f.arch)
	a.asmFlow(f, ad, args, e, asmRegs{}, 0, map[string]bool{})
	return e
}

// asmFlow: forward dataflow of pointer provenance.
func (a *effAna) asmFlow(f *asmFunc, ad *asmData, args map[int64]int, e *asmEffect, entry asmRegs, depth int, stack map[string]bool) asmRegs {
	if depth > 6 || len(f.insts) == 0 {
		return entry
	}
	in := make([]asmRegs, len(f.insts))
	start := entry.clone()
	start["SP"] = regSet{"sp": true}
	start["RSP"] = regSet{"sp": true}
	in[0] = start
	work := []int{0}
	exit := asmRegs{}
	slots := map[string]regSet{} // stack slots, flow-insensitive
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		ins := f.insts[i]
		out := in[i].clone()
		a.asmStep(f, ad, args, e, ins, i, out, slots, depth, stack)
		if ins.op == "RET" {
			for k, v := range out {
				exit[k] = unionRS(exit[k], v)
			}
			continue
		}
		for _, s := range f.succs(i) {
			if in[s] == nil {
				in[s] = out.clone()
				work = append(work, s)
				continue
			}
			ch := false
			for k, v := range out {
				u := unionRS(in[s][k], v)
				if !sameRS(u, in[s][k]) {
					in[s][k] = u
					ch = true
				}
			}
			if ch {
				work = append(work, s)
			}
		}
	}
	return exit
}

func (a *effAna) asmMemRoots(f *asmFunc, o asmOp, r asmRegs) regSet {
	s := regSet{}
	s = unionRS(s, r[o.reg])
	if o.index != "" {
		s = unionRS(s, r[o.index])
	}
	return s
}

func (a *effAna) asmStep(f *asmFunc, ad *asmData, args map[int64]int, e *asmEffect, ins asmInst, i int, r asmRegs, slots map[string]regSet, depth int, stack map[string]bool) {
	put := func(s regSet, w string, o asmOp) {
		if len(s) == 0 {
			// an address that comes from data: nothing is known
			if e.unknown[w] == "" {
				e.unknown[w] = w
				for _, ix := range args {
					e.writes[ix] = w + " through an address the analysis cannot follow"
				}
			}
			return
		}
		for k := range s {
			switch {
			case k == "sp":
			case strings.HasPrefix(k, "a"):
				var n int
				fmt.Sscanf(k, "a%d", &n)
				if e.writes[n] == "" {
					e.writes[n] = w
				}
			case strings.HasPrefix(k, "s:"):
				if e.globals[k[2:]] == "" {
					e.globals[k[2:]] = w
				}
			}
		}
	}
	if ins.op == "CALL" || (ins.op == "JMP" && len(ins.args) == 1 && ins.args[0].kind == aSym) {
		if len(ins.args) == 1 && (ins.args[0].kind == aSym) {
			n := strings.TrimSuffix(ins.args[0].sym, "<>")
			if g := ad.funcs[n]; g != nil && g != f {
				if stack[n] {
					return
				}
				stack[n] = true
				// register-convention call: the callee sees our registers
				ex := a.asmFlow(g, ad, args, e, r, depth+1, stack)
				delete(stack, n)
				for k, v := range ex {
					r[k] = v
				}
				return
			}
			if strings.HasPrefix(n, "runtime.") {
				return
			}
		}
		for _, ix := range args {
			e.writes[ix] = f.where(i) + " call to unknown code"
		}
		return
	}
	if isBranch(ins.op) || ins.op == "RET" || len(ins.args) == 0 {
		return
	}
	src := regSet{}
	for _, o := range ins.args[:len(ins.args)-1] {
		switch o.kind {
		case aReg, aShift:
			src = unionRS(src, r[o.reg])
		case aPair:
			src = unionRS(src, unionRS(r[o.reg], r[o.reg2]))
		case aArg:
			if ix, ok := args[o.off-f.fpBias()]; ok {
				if strings.HasPrefix(ins.op, "LEA") {
					src = unionRS(src, regSet{"sp": true})
				} else {
					src = unionRS(src, regSet{fmt.Sprintf("a%d", ix): true})
				}
			}
		case aSymAddr:
			src = unionRS(src, regSet{"s:" + strings.TrimSuffix(o.sym, "<>"): true})
		case aSym:
			if strings.HasPrefix(ins.op, "LEA") {
				src = unionRS(src, regSet{"s:" + strings.TrimSuffix(o.sym, "<>"): true})
			}
		case aMem:
			if strings.HasPrefix(ins.op, "LEA") {
				src = unionRS(src, a.asmMemRoots(f, o, r))
			} else if r[o.reg]["sp"] {
				src = unionRS(src, slots[fmt.Sprint(o.off)])
			}
		}
	}
	last := ins.args[len(ins.args)-1]
	// three-operand amd64 instructions with two destinations (MULX)
	two := f.arch == "amd64" && strings.HasPrefix(ins.op, "MULX") && len(ins.args) == 3
	if two {
		r[ins.args[1].reg] = nil
	}
	switch last.kind {
	case aReg:
		switch {
		case f.arch == "amd64" && (strings.HasPrefix(ins.op, "CMP") || strings.HasPrefix(ins.op, "TEST") || strings.HasPrefix(ins.op, "PUSH")):
			return
		case f.arch == "amd64" && strings.HasPrefix(ins.op, "MUL") && !two && len(ins.args) == 1:
			r["AX"], r["DX"] = nil, nil
			return
		case f.arch == "arm64" && strings.HasPrefix(ins.op, "CMP"):
			return
		}
		if strings.HasPrefix(ins.op, "XCHG") && len(ins.args) == 2 && ins.args[0].kind == aReg {
			r[ins.args[0].reg], r[last.reg] = r[last.reg], r[ins.args[0].reg]
			return
		}
		if len(ins.args) == 1 { // POP, NEG, INC ...
			if strings.HasPrefix(ins.op, "POP") {
				r[last.reg] = nil
			}
			return
		}
		if last.reg == "SP" || last.reg == "RSP" {
			return
		}
		keep := false
		if len(ins.args) == 2 {
			switch {
			case strings.HasPrefix(ins.op, "MOV"), strings.HasPrefix(ins.op, "LEA"), strings.HasPrefix(ins.op, "FMOV"):
			default:
				keep = true // two-address arithmetic: dst op= src
			}
			if (strings.HasPrefix(ins.op, "XOR") || strings.HasPrefix(ins.op, "SUB") || strings.HasPrefix(ins.op, "PXOR")) && ins.args[0].kind == aReg && ins.args[0].reg == last.reg {
				r[last.reg] = nil
				return
			}
		}
		if two {
			r[last.reg] = nil
			return
		}
		if keep {
			src = unionRS(src, r[last.reg])
		}
		if !pointerOp(ins.op) {
			src = nil
		}
		r[last.reg] = src
	case aPair:
		if strings.HasPrefix(ins.op, "LDP") {
			r[last.reg], r[last.reg2] = nil, nil
			return
		}
		r[last.reg], r[last.reg2] = src, src
	case aMem:
		if !asmWritesMem(f.arch, ins.op) {
			if f.arch == "amd64" && strings.HasPrefix(ins.op, "MUL") {
				r["AX"], r["DX"] = nil, nil
			}
			return
		}
		// on arm64 the memory operand of a load comes first
		roots := a.asmMemRoots(f, last, r)
		put(roots, f.where(i)+" "+ins.text, last)
		if roots["sp"] {
			k := fmt.Sprint(last.off)
			slots[k] = unionRS(slots[k], src)
		}
	case aSym:
		if !asmWritesMem(f.arch, ins.op) {
			if f.arch == "amd64" && strings.HasPrefix(ins.op, "MUL") {
				r["AX"], r["DX"] = nil, nil
			}
			return
		}
		put(regSet{"s:" + strings.TrimSuffix(last.sym, "<>"): true}, f.where(i)+" "+ins.text, last)
	case aArg:
		// results live in the caller's frame
	case aOther:
		// vector register lists
	}
}

// pointerOp: instructions whose result can still be used as a pointer.
func pointerOp(op string) bool {
	for _, p := range []string{"MOV", "LEA", "ADD", "SUB", "INC", "DEC", "AND", "CMOV", "CSEL", "OR", "XOR", "XCHG", "FMOV"} {
		if strings.HasPrefix(op, p) {
			return true
		}
	}
	return false
}

func sizesFor(arch string) types.Sizes { return types.SizesFor("gc", arch) }
