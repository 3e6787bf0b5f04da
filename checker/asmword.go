package main

import (
	"encoding/binary"
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Word-level abstract interpretation of straight-line assembly: registers and
// memory hold the same terms as in the Go interpreter, carry and overflow flags
// are 0/1 terms. Branches must be decided by constants (CPU feature flags).

type asmVal interface{} // *Term (64 bit), Ptr, or vec
type vec [2]*Term

type asmRun struct {
	in     *Interp
	st     *State
	fn     *ssa.Function
	f      *asmFunc
	data   *asmData
	reg    map[string]asmVal
	sp     int64 // how far the stack pointer was moved back
	frame  map[int64]asmVal
	args   map[int64]asmVal
	cf     *Term // carry (amd64: also borrow)
	bf     *Term // borrow (arm64, after a subtraction)
	of     *Term
	lt     *Term // arm64: signed less, after a comparison
	zf     *Term // boolean
	vf     *Term // variable flag of BTQ etc.
	splits int
	depth  int
	where  string
}

type asmStop struct{ msg string }

func (r *asmRun) stop(format string, a ...interface{}) {
	panic(asmStop{r.where + ": " + fmt.Sprintf(format, a...)})
}

// asmBody interprets the assembly routine that implements fn.
func (in *Interp) asmBody(st *State, fn *ssa.Function, args []Val) (out *State) {
	m, err := in.prg.loadAsmOnce()
	if err != nil {
		in.imprecise(err.Error())
		return st
	}
	d := m[fn.Pkg.Pkg.Path()]
	if d == nil || d.funcs[fn.Name()] == nil {
		in.imprecise("no assembly for " + fn.String())
		return st
	}
	r := &asmRun{in: in, st: st, fn: fn, f: d.funcs[fn.Name()], data: d, reg: map[string]asmVal{"BP": Sym(64, "caller:BP")}, frame: map[int64]asmVal{}, args: map[int64]asmVal{}}
	off := int64(0)
	for i, p := range fn.Params {
		sz := sizes.Sizeof(p.Type())
		al := sizes.Alignof(p.Type())
		off = (off + al - 1) / al * al
		switch v := args[i].(type) {
		case *Term:
			if v.w < 64 {
				v = Zext(v, 64)
			}
			r.args[off] = v
		case Ptr:
			r.args[off] = v
		default:
			in.imprecise("argument of assembly routine " + fn.String())
			return st
		}
		off += sz
	}
	defer func() {
		switch x := recover().(type) {
		case nil:
		case asmStop:
			in.imprecise(x.msg)
			out = r.st
		default:
			panic(x)
		}
	}()
	in.fnSeen[fn]++
	r.run()
	return r.st
}

func (p *Program) loadAsmOnce() (map[string]*asmData, error) {
	if p.asmCache == nil {
		m, err := p.loadAsm()
		if err != nil {
			return nil, err
		}
		p.asmCache = m
	}
	return p.asmCache, nil
}

func (r *asmRun) run() { r.runFrom(r.f.prologue) }

func (r *asmRun) runFrom(pc int) {
	arm := r.f.arch == "arm64"
	for steps := 0; ; steps++ {
		if pc >= len(r.f.insts) {
			r.stop("falls off the end")
		}
		if steps > 200000 {
			r.stop("too many instructions")
		}
		i := &r.f.insts[pc]
		r.where = r.f.where(pc)
		r.in.steps++
		if i.op == "RET" {
			return
		}
		if i.op == "CALL" || i.op == "BL" || isUncond(i.op) && len(i.args) == 1 && i.args[0].kind == aSym {
			var f *asmFunc
			if len(i.args) == 1 && i.args[0].kind == aSym {
				f = r.data.funcs[strings.TrimSuffix(i.args[0].sym, "<>")]
			}
			if f == nil || r.depth > 8 {
				r.stop("call %s not resolved", i.text)
			}
			old := r.f
			r.f = f
			r.depth++
			r.runFrom(f.prologue)
			r.f = old
			r.depth--
			if isUncond(i.op) {
				return
			}
			pc++
			continue
		}
		if isBranch(i.op) {
			if !isUncond(i.op) {
				z := r.taken(i)
				if z != True && z != False {
					r.split(z, pc, i.next)
					return
				}
				if z == False {
					pc++
					continue
				}
			}
			{
				pc = i.next
				if pc < 0 {
					r.stop("branch target not resolved")
				}
			}
			continue
		}
		if arm {
			r.arm64(i)
		} else {
			r.amd64(i)
		}
		pc++
	}
}

// split follows both sides of a branch on a CPU feature flag and joins the
// memory at the end of the routine.
func (r *asmRun) split(z *Term, pc, next int) {
	if next < 0 || r.splits > 4 {
		r.stop("branch is not decided")
	}
	r.splits++
	clone := func() *asmRun {
		c := *r
		c.reg, c.frame = map[string]asmVal{}, map[int64]asmVal{}
		for k, v := range r.reg {
			c.reg[k] = v
		}
		for k, v := range r.frame {
			c.frame[k] = v
		}
		return &c
	}
	a, b := clone(), clone()
	_, r.st = r.in.forkCall(r.st, z, func(st *State) (Val, *State) {
		a.st = st
		a.runFrom(next)
		return nil, a.st
	}, func(st *State) (Val, *State) {
		b.st = st
		b.runFrom(pc + 1)
		return nil, b.st
	})
}

func (r *asmRun) taken(i *asmInst) *Term {
	z := r.zf
	neg := false
	switch i.op {
	case "JEQ", "JE", "JZ", "BEQ":
	case "JNE", "JNZ", "BNE":
		neg = true
	case "JCC", "JAE":
		neg = true
		fallthrough
	case "JCS", "JB":
		if r.cf == nil {
			r.stop("branch on unknown flags")
		}
		z = toBool(r.cf)
	case "TBZ", "TBNZ":
		z = Not(toBool(BAnd(r.word(i.args[1]), Const(64, 1<<i.args[0].imm))))
		neg = i.op == "TBNZ"
	case "BLT", "BGE":
		if r.lt == nil {
			r.stop("branch on unknown flags")
		}
		z = r.lt
		neg = i.op == "BGE"
	case "CBZ", "CBNZ":
		if p, ok := r.get(i.args[0]).(Ptr); ok {
			z = Const(1, b2u(p.o == nil))
			neg = i.op == "CBNZ"
			break
		}
		t, ok := r.get(i.args[0]).(*Term)
		if !ok {
			r.stop("branch on an address")
		}
		z = Not(toBool(t))
		neg = i.op == "CBNZ"
	default:
		r.stop("branch %s not understood", i.op)
	}
	if z == nil {
		r.stop("branch %s on unknown flags", i.text)
	}
	if neg {
		z = Not(z)
	}
	return Restrict(z, r.st.pc)
}

var u64T = types.Typ[types.Uint64]

// addr resolves a memory operand to a place in an object or the frame.
func (r *asmRun) addr(o asmOp) (p Ptr, frame bool, off int64) {
	if o.reg == "SP" || o.reg == "RSP" {
		return Ptr{}, true, o.off + r.sp
	}
	b, ok := r.reg[o.reg].(Ptr)
	if !ok {
		r.stop("address in %s is not known", o.reg)
	}
	q := Ptr{b.o, Add(b.off, Const(64, uint64(o.off)))}
	if o.index != "" && o.index != "ZR" {
		x, ok := r.reg[o.index].(*Term)
		if !ok {
			r.stop("index in %s is not known", o.index)
		}
		q.off = Add(q.off, MulConst(x, int64(o.scale)))
	}
	return q, false, 0
}

// load64 reads the k-th word of a memory operand.
func (r *asmRun) load64(o asmOp, k int) asmVal {
	d := int64(8 * k)
	switch o.kind {
	case aArg:
		v, ok := r.args[o.off+d-r.f.fpBias()]
		if !ok {
			r.stop("argument at %d not known", o.off+d-r.f.fpBias())
		}
		return v
	case aSym:
		return r.symWord(o.sym, o.off+d, 8)
	case aMem:
		p, fr, off := r.addr(o)
		if fr {
			v, ok := r.frame[off+d]
			if !ok {
				r.stop("stack slot %d not written", off+d)
			}
			return v
		}
		t, ok := r.in.load(r.st, Ptr{p.o, Add(p.off, Const(64, uint64(d)))}, u64T).(*Term)
		if !ok {
			r.stop("memory word not known")
		}
		return t
	}
	r.stop("operand %s not understood", o.text)
	return nil
}

func (r *asmRun) symWord(sym string, off int64, w int64) *Term {
	b, ok := r.data.data[sym]
	if !ok {
		b, ok = r.data.data[strings.TrimSuffix(sym, "<>")]
	}
	if ok {
		if off+w > int64(len(b)) {
			r.stop("constant %s too short", sym)
		}
		if w == 1 {
			return Const(64, uint64(b[off]))
		}
		return Const(64, binary.LittleEndian.Uint64(b[off:]))
	}
	name := strings.TrimSuffix(sym, "<>")
	if i := strings.LastIndexAny(name, "./"); i >= 0 {
		name = name[i+1:]
	}
	g, ok := r.fn.Pkg.Members[name].(*ssa.Global)
	if !ok {
		r.stop("symbol %s not found", sym)
	}
	o := r.in.global(g)
	T := types.Type(u64T)
	if w == 1 {
		T = types.Typ[types.Uint8]
		if isBool(g.Type().(*types.Pointer).Elem()) {
			T = types.Typ[types.Bool]
		}
	}
	v := r.in.load(r.st, Ptr{o, Const(64, uint64(off))}, T)
	t, ok := v.(*Term)
	if !ok {
		r.stop("content of %s not known", sym)
	}
	if t.w < 64 {
		t = Zext(t, 64)
	}
	return t
}

func (r *asmRun) get(o asmOp) asmVal {
	switch o.kind {
	case aImm:
		return Const(64, o.imm)
	case aReg:
		if o.reg == "ZR" {
			return Const(64, 0)
		}
		v, ok := r.reg[o.reg]
		if !ok {
			r.stop("register %s not known", o.reg)
		}
		return v
	case aShift:
		t := r.word(asmOp{kind: aReg, reg: o.reg, text: o.text})
		switch o.shift {
		case "<<":
			return Shl(t, uint(o.off))
		case ">>":
			return Shr(t, uint(o.off))
		}
		r.stop("operand %s not understood", o.text)
	case aSymAddr:
		r.stop("address of a symbol")
	}
	return r.load64(o, 0)
}

func (r *asmRun) word(o asmOp) *Term {
	t, ok := r.get(o).(*Term)
	if !ok {
		r.stop("operand %s is not a word", o.text)
	}
	return t
}

func (r *asmRun) put(o asmOp, v asmVal) {
	switch o.kind {
	case aReg:
		if o.reg != "ZR" {
			r.reg[o.reg] = v
		}
		return
	case aMem:
		r.store64(o, 0, v)
		return
	}
	r.stop("destination %s not understood", o.text)
}

func (r *asmRun) store64(o asmOp, k int, v asmVal) {
	d := int64(8 * k)
	p, fr, off := r.addr(o)
	if fr {
		if (off+d)%8 != 0 {
			r.stop("unaligned stack slot")
		}
		r.frame[off+d] = v
		return
	}
	t, ok := v.(*Term)
	if !ok {
		r.stop("address stored")
	}
	r.in.store(r.st, Ptr{p.o, Add(p.off, Const(64, uint64(d)))}, u64T, t, True)
}

var zero64 = func() *Term { return Const(64, 0) }

func addCarry(x, y, z *Term) (s, c *Term) {
	s = Add(Add(x, y), z)
	if x.id > y.id {
		x, y = y, x
	}
	if v, ok := foldCarry(x, y, z); ok {
		return s, v
	}
	return s, AppR(64, 0, 1, "carry", x, y, z)
}

func subBorrow(x, y, z *Term) (s, c *Term) {
	s = Sub(Sub(x, y), z)
	if v, ok := foldBorrow(x, y, z); ok {
		return s, v
	}
	return s, AppR(64, 0, 1, "borrow", x, y, z)
}

func foldCarry(x, y, z *Term) (*Term, bool) {
	if x.k == KConst && y.k == KConst && z.k == KConst {
		s := x.c + y.c + z.c
		return Const(64, ((x.c&y.c)|((x.c|y.c)&^s))>>63), true
	}
	for s := 0; s < 2; s++ {
		// -bit + 1
		if x.k == KConst && x.c == 1 && z.k == KConst && z.c == 0 && y.k == KLin && y.c == 0 && len(y.lin) == 1 && y.lin[0].k == -1 && pm(y.lin[0].t) == 1 {
			return y.lin[0].t, true
		}
		if x.k == KConst && x.c == 0 {
			if z.k == KConst && z.c == 0 || y.k == KConst && z.k != KConst && y.c != ^uint64(0) {
				return Const(64, 0), true
			}
			if y.k == KConst && y.c == ^uint64(0) {
				return z, true
			}
		}
		x, y = y, x
	}
	return nil, false
}

func foldBorrow(x, y, z *Term) (*Term, bool) {
	if x.k == KConst && y.k == KConst && z.k == KConst {
		s := x.c - y.c - z.c
		return Const(64, ((^x.c&y.c)|(^(x.c^y.c)&s))>>63), true
	}
	if y.k == KConst && y.c == 0 && z.k == KConst && z.c == 0 {
		return Const(64, 0), true
	}
	if x == y {
		return z, true
	}
	if x.k == KConst && x.c == 0 && z.k == KConst && z.c == 0 && pm(y)>>1 == 0 {
		return y, true
	}
	return nil, false
}

func mulWide(x, y *Term) (hi, lo *Term) {
	if x.id > y.id {
		x, y = y, x
	}
	lo = Mul(x, y)
	for s := 0; s < 2; s++ {
		if x.k == KConst && x.c <= 1 {
			return Const(64, 0), lo
		}
		x, y = y, x
	}
	if x.k == KConst && y.k == KConst {
		h, _ := mul64(x.c, y.c)
		return Const(64, h), lo
	}
	return App(64, "mulhi", x, y), lo
}

func (r *asmRun) flag(t *Term) *Term {
	if t == nil {
		r.stop("flag not known")
	}
	return t
}

func (r *asmRun) clearFlags() { r.cf, r.of, r.zf = nil, nil, nil }

func (r *asmRun) amd64(i *asmInst) {
	a := i.args
	switch i.op {
	case "NOP", "XCHGL":
	case "MOVQ":
		v := r.get2(a[0])
		if x, ok := v.(vec); ok && (a[1].kind != aReg || !isXmm(a[1].reg)) {
			v = x[0]
		}
		if a[1].kind == aReg && isXmm(a[1].reg) {
			t, ok := v.(*Term)
			if !ok {
				r.stop("vector move")
			}
			v = vec{t, zero64()}
		}
		r.put(a[1], v)
	case "MOVBLZX", "MOVBQZX":
		var t *Term
		if a[0].kind == aSym {
			t = r.symWord(a[0].sym, a[0].off, 1)
		} else if a[0].kind == aArg || a[0].kind == aReg {
			t = BAnd(r.word(a[0]), Const(64, 0xff))
		} else {
			r.stop("byte load")
		}
		r.put(a[1], t)
	case "MOVB":
		if a[1].kind != aReg || a[0].kind == aMem {
			r.stop("byte move")
		}
		var t *Term
		if a[0].kind == aSym {
			t = r.symWord(a[0].sym, a[0].off, 1)
		} else {
			t = BAnd(r.word(a[0]), Const(64, 0xff))
		}
		old, ok := r.reg[a[1].reg].(*Term)
		if !ok {
			// the other bytes keep an unknown value
			old = Sym(64, "asm:"+r.where)
		}
		r.put(a[1], Xor(BAnd(old, Const(64, ^uint64(0xff))), t))
	case "MOVOU", "MOVO", "MOVUPS", "MOVAPS", "MOVOA":
		r.putVec(a[1], r.getVec(a[0]))
	case "PXOR", "PAND", "POR":
		if i.op == "PXOR" && a[0].kind == aReg && a[1].kind == aReg && a[0].reg == a[1].reg {
			r.putVec(a[1], vec{zero64(), zero64()})
			return
		}
		x, y := r.getVec(a[0]), r.getVec(a[1])
		f := Xor
		switch i.op {
		case "PAND":
			f = BAnd
		case "POR":
			f = BOr
		}
		r.putVec(a[1], vec{f(x[0], y[0]), f(x[1], y[1])})
	case "PSHUFD":
		x := r.getVec(a[1])
		sel := a[0].imm
		d := func(k uint64) *Term { // dword k zero-extended
			return BAnd(Shr(x[k>>1], uint(32*(k&1))), Const(64, 0xffffffff))
		}
		var q [4]*Term
		for k := range q {
			q[k] = d(sel >> uint(2*k) & 3)
		}
		j := func(l, h *Term) *Term { return Xor(l, Shl(h, 32)) }
		r.putVec(a[2], vec{j(q[0], q[1]), j(q[2], q[3])})
	case "ADDQ", "ADCQ":
		if p, ok := r.get2(a[1]).(Ptr); ok && i.op == "ADDQ" && a[1].kind == aReg {
			r.put(a[1], Ptr{p.o, Add(p.off, r.word(a[0]))})
			r.clearFlags()
			return
		}
		if i.op == "ADDQ" && a[1].kind == aReg && a[1].reg == "SP" && a[0].kind == aImm {
			r.sp += int64(a[0].imm)
			return
		}
		z := zero64()
		if i.op == "ADCQ" {
			z = r.flag(r.cf)
		}
		s, c := addCarry(r.word(a[0]), r.word(a[1]), z)
		r.put(a[1], s)
		r.cf, r.of, r.zf = c, nil, Not(toBoolNum(s))
	case "ADCXQ":
		s, c := addCarry(r.word(a[0]), r.word(a[1]), r.flag(r.cf))
		r.put(a[1], s)
		r.cf = c
	case "ADOXQ":
		s, c := addCarry(r.word(a[0]), r.word(a[1]), r.flag(r.of))
		r.put(a[1], s)
		r.of = c
	case "SUBQ", "SBBQ":
		if i.op == "SUBQ" && len(a) == 2 && a[1].kind == aReg && a[1].reg == "SP" {
			return
		}
		if p, ok := r.get2(a[1]).(Ptr); ok && i.op == "SUBQ" && a[1].kind == aReg {
			r.put(a[1], Ptr{p.o, Sub(p.off, r.word(a[0]))})
			r.clearFlags()
			return
		}
		z := zero64()
		if i.op == "SBBQ" {
			z = r.flag(r.cf)
			if a[0].kind == aReg && a[1].kind == aReg && a[0].reg == a[1].reg {
				// -carry, whatever the register held
				r.put(a[1], Neg(z))
				r.of, r.zf = nil, nil
				return
			}
		}
		s, c := subBorrow(r.word(a[1]), r.word(a[0]), z)
		r.put(a[1], s)
		r.cf, r.of, r.zf = c, nil, Not(toBoolNum(s))
	case "DECQ", "INCQ":
		d := Const(64, 1)
		if i.op == "DECQ" {
			d = Const(64, ^uint64(0))
		}
		x := Add(r.word(a[0]), d)
		r.put(a[0], x)
		r.of, r.zf = nil, Not(toBoolNum(x))
	case "CMPQ", "CMPL":
		x, y := r.word(a[0]), r.word(a[1])
		if i.op == "CMPL" {
			x, y = BAnd(x, Const(64, 0xffffffff)), BAnd(y, Const(64, 0xffffffff))
		}
		if x.k != KConst || y.k != KConst {
			r.stop("comparison of unknown values")
		}
		r.cf, r.of = Const(64, b2u(x.c < y.c)), nil
		r.zf = Const(1, b2u(x.c == y.c))
	case "NEGQ":
		x := r.word(a[0])
		s, c := subBorrow(zero64(), x, zero64())
		r.put(a[0], s)
		r.cf, r.of, r.zf = c, nil, nil
	case "XORQ", "XORL", "ANDQ", "ORQ":
		if strings.HasPrefix(i.op, "XOR") && a[0].kind == aReg && a[1].kind == aReg && a[0].reg == a[1].reg {
			r.put(a[1], zero64())
		} else if i.op == "XORL" {
			r.stop("32-bit exclusive or")
		} else {
			f := Xor
			switch i.op {
			case "ANDQ":
				f = BAnd
			case "ORQ":
				f = BOr
			}
			r.put(a[1], f(r.word(a[0]), r.word(a[1])))
		}
		r.cf, r.of, r.zf = zero64(), zero64(), nil
	case "NOTQ":
		r.put(a[0], BNot(r.word(a[0])))
	case "SHLQ", "SHRQ":
		if len(a) != 2 || a[0].kind != aImm {
			r.stop("shift by a register")
		}
		if i.op == "SHLQ" {
			r.put(a[1], Shl(r.word(a[1]), uint(a[0].imm)))
		} else {
			r.put(a[1], Shr(r.word(a[1]), uint(a[0].imm)))
		}
		r.clearFlags()
	case "MULQ":
		h, l := mulWide(r.word(a[0]), r.word(asmOp{kind: aReg, reg: "AX", text: "AX"}))
		r.reg["AX"], r.reg["DX"] = l, h
		r.clearFlags()
	case "IMULQ":
		if len(a) != 2 {
			r.stop("IMULQ")
		}
		r.put(a[1], Mul(r.word(a[0]), r.word(a[1])))
		r.clearFlags()
	case "MULXQ":
		h, l := mulWide(r.word(a[0]), r.word(asmOp{kind: aReg, reg: "DX", text: "DX"}))
		r.put(a[1], l)
		r.put(a[2], h)
	case "CMPB":
		x, y := r.byteOp(a[0]), r.byteOp(a[1])
		r.clearFlags()
		r.zf = Eq(x, y)
	case "TESTB":
		x, y := r.byteOp(a[0]), r.byteOp(a[1])
		r.clearFlags()
		r.zf = Not(toBool(BAnd(x, y)))
	case "BTQ":
		if a[0].kind != aImm {
			r.stop("BTQ")
		}
		r.cf = BAnd(Shr(r.word(a[1]), uint(a[0].imm)), Const(64, 1))
		r.of = nil
	case "LEAQ":
		if a[0].kind == aMem {
			p, fr, _ := r.addr(a[0])
			if !fr {
				r.put(a[1], p)
				return
			}
		}
		r.stop("LEAQ")
	case "PUSHQ", "POPQ", "ADJSP":
		// saves and restores of registers by the generated frame code
		if i.op == "POPQ" && a[0].reg != "BP" || i.op == "PUSHQ" && a[0].reg != "BP" {
			r.stop("stack operation")
		}
	case "ROLQ", "RORQ":
		if len(a) != 2 || a[0].kind != aImm {
			r.stop("rotation by a register")
		}
		k := uint(a[0].imm) % 64
		if i.op == "RORQ" {
			k = (64 - k) % 64
		}
		x := r.word(a[1])
		if k > 0 {
			x = Xor(Shl(x, k), Shr(x, 64-k))
		}
		r.put(a[1], x)
		r.cf, r.of = nil, nil
	default:
		if !r.aesInst(i) {
			r.stop("instruction %s not understood", i.text)
		}
	}
}

func toBoolNum(t *Term) *Term {
	if t.k == KConst {
		return toBool(t)
	}
	return nil2()
}

// nil2 stands for a condition nothing may depend on.
func nil2() *Term { return varNode(opaqueVar(App(8, "flags"))) }

func isXmm(r string) bool { return len(r) >= 2 && r[0] == 'X' && r[1] >= '0' && r[1] <= '9' }

func (r *asmRun) get2(o asmOp) asmVal {
	if o.kind == aReg && o.reg != "ZR" {
		v, ok := r.reg[o.reg]
		if !ok {
			// saved registers of the caller may be moved around
			return Sym(64, "asm:"+r.where+o.reg)
		}
		return v
	}
	return r.get(o)
}

func (r *asmRun) byteOp(o asmOp) *Term {
	if o.kind == aSym {
		return r.symWord(o.sym, o.off, 1)
	}
	return BAnd(r.word(o), Const(64, 0xff))
}

func (r *asmRun) getVec(o asmOp) vec {
	if o.kind == aReg {
		v, ok := r.reg[o.reg].(vec)
		if !ok {
			r.stop("vector register %s not known", o.reg)
		}
		return v
	}
	x, ok1 := r.load64(o, 0).(*Term)
	y, ok2 := r.load64(o, 1).(*Term)
	if !ok1 || !ok2 {
		r.stop("vector load")
	}
	return vec{x, y}
}

func (r *asmRun) putVec(o asmOp, v vec) {
	if o.kind == aReg {
		r.reg[o.reg] = v
		return
	}
	r.store64(o, 0, v[0])
	r.store64(o, 1, v[1])
}

// borrowIn is the incoming borrow of SBC: the complement of the ARM carry flag.
func (r *asmRun) borrowIn() *Term {
	if r.bf != nil {
		return r.bf
	}
	return Xor(r.flag(r.cf), Const(64, 1))
}

func (r *asmRun) carryIn() *Term {
	if r.cf != nil {
		return r.cf
	}
	return Xor(r.flag(r.bf), Const(64, 1))
}

func (r *asmRun) arm64(i *asmInst) {
	a := i.args
	// two- and three-operand forms: op b, a, d computes d = a op b
	bin := func() (x, y *Term, d asmOp) {
		switch len(a) {
		case 2:
			return r.word(a[1]), r.word(a[0]), a[1]
		case 3:
			return r.word(a[1]), r.word(a[0]), a[2]
		}
		r.stop("instruction %s not understood", i.text)
		return
	}
	set := func(t *Term) *Term { r.clearFlags(); r.bf, r.lt = nil, nil; r.zf = t; return t }
	switch i.op {
	case "NOP", "NOOP":
	case "MOVD":
		r.put(a[1], r.get2(a[0]))
	case "MOVB", "MOVBU":
		var t *Term
		switch a[0].kind {
		case aSym:
			t = r.symWord(a[0].sym, a[0].off, 1)
		case aArg, aReg:
			t = BAnd(r.word(a[0]), Const(64, 0xff))
		default:
			r.stop("byte load")
		}
		if i.op == "MOVB" {
			t = Sext(Trunc(t, 8), 64)
		}
		if a[1].kind != aReg {
			r.stop("byte store")
		}
		r.put(a[1], t)
	case "LDP":
		if a[1].kind != aPair {
			r.stop("pair load")
		}
		x, y := r.load64(a[0], 0), r.load64(a[0], 1)
		r.put(asmOp{kind: aReg, reg: a[1].reg}, x)
		r.put(asmOp{kind: aReg, reg: a[1].reg2}, y)
	case "STP":
		if a[0].kind != aPair || a[1].kind != aMem {
			r.stop("pair store")
		}
		x, y := r.get(asmOp{kind: aReg, reg: a[0].reg}), r.get(asmOp{kind: aReg, reg: a[0].reg2})
		r.store64(a[1], 0, x)
		r.store64(a[1], 1, y)
	case "ADD", "ADDS", "ADC", "ADCS":
		x, y, d := bin()
		z := zero64()
		if strings.HasPrefix(i.op, "ADC") {
			z = r.carryIn()
		}
		s, c := addCarry(x, y, z)
		r.put(d, s)
		if strings.HasSuffix(i.op, "S") {
			set(Not(toBoolNum(s)))
			r.cf = c
		}
	case "SUB", "SUBS", "SBC", "SBCS":
		if len(a) == 2 && a[1].kind == aReg {
			if p, ok := r.get2(a[1]).(Ptr); ok && i.op == "SUB" {
				r.put(a[1], Ptr{p.o, Sub(p.off, r.word(a[0]))})
				return
			}
		}
		x, y, d := bin()
		z := zero64()
		if strings.HasPrefix(i.op, "SBC") {
			z = r.borrowIn()
		}
		s, c := subBorrow(x, y, z)
		r.put(d, s)
		if i.op == "SUBS" || i.op == "SBCS" {
			set(Not(toBoolNum(s)))
			r.bf = c
		}
	case "NEG":
		r.put(a[len(a)-1], Neg(r.word(a[0])))
	case "CMP":
		x, y := r.word(a[1]), r.word(a[0])
		set(Eq(x, y))
		_, r.bf = subBorrow(x, y, zero64())
		if x.k == KConst && y.k == KConst {
			r.lt = Const(1, b2u(int64(x.c) < int64(y.c)))
		}
	case "AND", "ORR", "EOR":
		x, y, d := bin()
		f := BAnd
		switch i.op {
		case "ORR":
			f = BOr
		case "EOR":
			f = Xor
		}
		r.put(d, f(x, y))
	case "MVN":
		r.put(a[1], BNot(r.word(a[0])))
	case "LSL", "LSR":
		if a[0].kind != aImm {
			r.stop("shift by a register")
		}
		x := r.word(a[1])
		if i.op == "LSL" {
			r.put(a[len(a)-1], Shl(x, uint(a[0].imm)))
		} else {
			r.put(a[len(a)-1], Shr(x, uint(a[0].imm)))
		}
	case "MUL":
		x, y, d := bin()
		r.put(d, Mul(x, y))
	case "UMULH":
		x, y, d := bin()
		h, _ := mulWide(x, y)
		r.put(d, h)
	case "CSEL":
		z := r.zf
		neg := false
		switch a[0].text {
		case "EQ":
		case "NE":
			neg = true
		case "CC", "LO":
			z = toBool(r.borrowIn())
		case "CS", "HS":
			z = toBool(r.carryIn())
		default:
			r.stop("condition %s not understood", a[0].text)
		}
		if z == nil {
			r.stop("condition on unknown flags")
		}
		if neg {
			z = Not(z)
		}
		r.put(a[3], Ite(z, r.word(a[1]), r.word(a[2])))
	default:
		if !r.primArm64(i) {
			r.stop("instruction %s not understood", i.text)
		}
	}
}
