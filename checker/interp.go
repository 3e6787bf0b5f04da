package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type PanicOut struct {
	st  *State
	msg string
	pos token.Pos
	fn  *ssa.Function
}

type Obligation struct {
	Harness string `json:"harness"`
	Name    string `json:"name"`
	OK      bool   `json:"ok"`
	Detail  string `json:"detail,omitempty"`
	Where   string `json:"where,omitempty"`
}

type Interp struct {
	prog       *ssa.Program
	fset       *token.FileSet
	objs       []*Object
	globals    map[*ssa.Global]*Object
	panics     []PanicOut
	notes      []string
	noteSet    map[string]bool
	symTypes   map[*Object]func(off int64, t types.Type) Val
	tables     map[string]string
	onStore    func(o *Object, off, w int64)
	curPos     token.Pos
	curFn      *ssa.Function
	depth      int
	models     map[string]Model
	obls       []Obligation
	harness    string
	steps      int
	fnSeen     map[*ssa.Function]int
	callSites  int
	loopInfo   map[*ssa.Function]*fnInfo
	ctr        map[string]int
	trace      bool
	instrs     map[ssa.Instruction]bool
	errObjs    map[string]*Object
	stack      []*ssa.Function
	maxIter    int
	cut        int // iterations after which a loop with unknown trip count is abandoned (verifrt.Cut)
	modPath    func(string) bool
	modelCache map[*ssa.Function]Model
	cso        *csOrder
	walk       *wkState
	ladder     *ldState
	num        *numState
	prg        *Program
	rngs       map[*Object]rngInfo
	shortCtr   int
	hashCtr    int
	lastDiff   string
	covers     map[string]bool
	modes      map[string]bool
	fields     map[string]*field
	lastField  string
	csidhCtr   int
	lastPanics []PanicOut
	initMark   int
	primCalls  map[string]int
	lastBlock  [64]*Term // operand of the last SM3 compression
	runs       int       // compressions of an unknown number of blocks
	assertHit  map[string]bool
	ct         *ctState
}

type Model func(in *Interp, st *State, fn *ssa.Function, args []Val, call *ssa.CallCommon) (Val, *State)

func NewInterp(prog *ssa.Program) *Interp {
	in := &Interp{prog: prog, fset: prog.Fset, globals: map[*ssa.Global]*Object{}, noteSet: map[string]bool{},
		symTypes: map[*Object]func(int64, types.Type) Val{}, tables: map[string]string{}, models: map[string]Model{},
		fnSeen: map[*ssa.Function]int{}, loopInfo: map[*ssa.Function]*fnInfo{}, ctr: map[string]int{},
		instrs: map[ssa.Instruction]bool{}, errObjs: map[string]*Object{}, maxIter: 5000,
		modPath: isModPkg}
	in.modelCache = map[*ssa.Function]Model{}
	in.rngs = map[*Object]rngInfo{}
	in.covers = map[string]bool{}
	in.modes = map[string]bool{}
	in.fields = map[string]*field{}
	in.primCalls = map[string]int{}
	in.assertHit = map[string]bool{}
	in.trace = os.Getenv("TRACE") != ""
	return in
}

func (in *Interp) imprecise(msg string) {
	if in.modes["counts"] {
		return
	}
	where := in.fset.Position(in.curPos)
	fn := ""
	if in.curFn != nil {
		fn = in.curFn.String()
	}
	m := fmt.Sprintf("%s at %s (%s)", msg, relPos(where), fn)
	if !in.noteSet[m] {
		in.noteSet[m] = true
		in.notes = append(in.notes, m)
		if in.trace {
			fmt.Fprintln(os.Stderr, "IMPRECISE", m)
		}
	}
}

func relPos(p token.Position) string {
	f := strings.TrimPrefix(p.Filename, repoDir+"/")
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (in *Interp) newObj(st *State, name string, size int64, typ types.Type) *Object {
	o := &Object{id: len(in.objs), name: name, size: size, typ: typ, pos: in.curPos}
	in.objs = append(in.objs, o)
	st.setRaw(o.id, &OState{owner: st.tok, cells: map[int64]Cell{}})
	return o
}

func (in *Interp) allocType(st *State, name string, t types.Type) *Object {
	return in.newObj(st, name, sizes.Sizeof(t), t)
}

// ---------- CFG

type loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loop
	live   []ssa.Value // defined inside, used outside
	order  []*ssa.BasicBlock
}
type fnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	order []*ssa.BasicBlock
	inner map[*ssa.BasicBlock]*loop
	top   *loop // pseudo loop for the function
}

func (in *Interp) info(fn *ssa.Function) *fnInfo {
	if fi, ok := in.loopInfo[fn]; ok {
		return fi
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, inner: map[*ssa.BasicBlock]*loop{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		fi.rpo[post[i]] = len(fi.order)
		fi.order = append(fi.order, post[i])
	}
	loops := map[*ssa.BasicBlock]*loop{}
	for _, b := range fi.order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					x := work[len(work)-1]
					work = work[:len(work)-1]
					if l.blocks[x] {
						continue
					}
					l.blocks[x] = true
					work = append(work, x.Preds...)
				}
			}
		}
	}
	var ls []*loop
	for _, l := range loops {
		ls = append(ls, l)
	}
	sort.Slice(ls, func(i, j int) bool {
		if len(ls[i].blocks) != len(ls[j].blocks) {
			return len(ls[i].blocks) < len(ls[j].blocks)
		}
		return fi.rpo[ls[i].header] < fi.rpo[ls[j].header]
	})
	fi.top = &loop{blocks: map[*ssa.BasicBlock]bool{}, order: fi.order, header: nil}
	for _, b := range fi.order {
		fi.top.blocks[b] = true
	}
	for i, l := range ls {
		l.parent = fi.top
		for _, m := range ls[i+1:] {
			if m.blocks[l.header] && m != l {
				l.parent = m
				break
			}
		}
		for _, b := range fi.order {
			if l.blocks[b] {
				l.order = append(l.order, b)
				if fi.inner[b] == nil {
					fi.inner[b] = l
				}
			}
		}
		for _, b := range l.order {
			for _, ins := range b.Instrs {
				v, ok := ins.(ssa.Value)
				if !ok || v.Referrers() == nil {
					continue
				}
				for _, r := range *v.Referrers() {
					if !l.blocks[r.Block()] {
						l.live = append(l.live, v)
						break
					}
				}
			}
		}
	}
	for _, b := range fi.order {
		if fi.inner[b] == nil {
			fi.inner[b] = fi.top
		}
	}
	in.loopInfo[fn] = fi
	return fi
}

// childLoop is the loop nested directly in l that contains b (nil if none).
func (fi *fnInfo) childLoop(l *loop, b *ssa.BasicBlock) *loop {
	x := fi.inner[b]
	if x == l {
		return nil
	}
	for x != nil && x.parent != l {
		x = x.parent
	}
	return x
}

type pending struct {
	st   *State
	phis map[*ssa.Phi]Val
	live map[ssa.Value]Val
}

type deferred struct {
	c  *ssa.CallCommon
	pc *Term
	fv Val
	as []Val
}

type frame struct {
	fn     *ssa.Function
	fi     *fnInfo
	env    map[ssa.Value]Val
	free   []Val
	retSt  *State
	ret    Val
	defers []deferred
}

func (in *Interp) mergePending(a, b *pending) *pending {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	if a.st.pc == False {
		return b
	}
	if b.st.pc == False {
		return a
	}
	c := Restrict(a.st.pc, Or(a.st.pc, b.st.pc))
	r := &pending{st: in.join(a.st, b.st), phis: map[*ssa.Phi]Val{}, live: map[ssa.Value]Val{}}
	for p, v := range a.phis {
		r.phis[p] = mergeVal(c, v, b.phis[p])
	}
	for v, x := range a.live {
		if y, ok := b.live[v]; ok {
			r.live[v] = mergeVal(c, x, y)
		} else {
			r.live[v] = x
		}
	}
	for v, y := range b.live {
		if _, ok := a.live[v]; !ok {
			r.live[v] = y
		}
	}
	return r
}

// callFn interprets fn; the returned state is nil when no path returns.
func (in *Interp) callFn(st *State, fn *ssa.Function, args []Val, free []Val) (Val, *State) {
	if st.pc == False {
		return nil, nil
	}
	if fn.Blocks == nil && (in.modes["num"] || in.modes["prim"]) && fn.Pkg != nil && in.modPath(fn.Pkg.Pkg.Path()) && fn.Signature.Results().Len() == 0 {
		return nil, in.asmBody(st, fn, args)
	}
	if fn.Blocks == nil {
		in.imprecise("call of function without body: " + fn.String())
		for _, a := range args {
			in.havocPtr(st, a)
		}
		return freshUnknown(resultType(fn.Signature), "result of "+fn.String()), st
	}
	if in.depth > 120 {
		in.imprecise("recursion too deep")
		return freshUnknown(resultType(fn.Signature), "recursion"), st
	}
	in.depth++
	savePos, saveFn := in.curPos, in.curFn
	in.stack = append(in.stack, fn)
	in.fnSeen[fn]++
	fr := &frame{fn: fn, fi: in.info(fn), env: map[ssa.Value]Val{}, free: free}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	in.runRegion(fr, fr.fi.top, &pending{st: st})
	in.depth--
	in.curPos, in.curFn = savePos, saveFn
	in.stack = in.stack[:len(in.stack)-1]
	return fr.ret, fr.retSt
}

func resultType(s *types.Signature) types.Type {
	if s.Results().Len() == 1 {
		return s.Results().At(0).Type()
	}
	return s.Results()
}

func (in *Interp) havocPtr(st *State, v Val) {
	switch v := v.(type) {
	case Ptr:
		if v.o != nil {
			in.havocObj(st, v.o, "escaped to unknown code")
		}
	case Slice:
		if v.o != nil {
			in.havocObj(st, v.o, "escaped to unknown code")
		}
	case Choice:
		in.havocPtr(st, v.a)
		in.havocPtr(st, v.b)
	}
}

// runRegion executes one pass over the blocks of l starting at entry (the
// header for real loops); returns the back-edge state and the exits.
func (in *Interp) runRegion(fr *frame, l *loop, entry *pending) (back *pending, exits map[*ssa.BasicBlock]*pending) {
	pend := map[*ssa.BasicBlock]*pending{}
	exits = map[*ssa.BasicBlock]*pending{}
	start := l.header
	if start == nil {
		start = fr.fn.Blocks[0]
	}
	pend[start] = entry
	route := func(to *ssa.BasicBlock, p *pending) {
		if to == l.header {
			back = in.mergePending(back, p)
			return
		}
		if l.blocks[to] {
			pend[to] = in.mergePending(pend[to], p)
			return
		}
		live := p.live
		if live == nil {
			live = map[ssa.Value]Val{}
		}
		for _, v := range l.live {
			if x, ok := fr.env[v]; ok {
				if _, has := live[v]; !has {
					live[v] = x
				}
			}
		}
		p.live = live
		exits[to] = in.mergePending(exits[to], p)
	}
	for _, b := range l.order {
		p := pend[b]
		if p == nil || p.st == nil || p.st.pc == False {
			continue
		}
		delete(pend, b)
		for v, x := range p.live {
			fr.env[v] = x
		}
		if ch := fr.fi.childLoop(l, b); ch != nil {
			ex := in.runLoop(fr, ch, p)
			var tos []*ssa.BasicBlock
			for to := range ex {
				tos = append(tos, to)
			}
			sort.Slice(tos, func(i, j int) bool { return tos[i].Index < tos[j].Index })
			for _, to := range tos {
				// values captured by the inner loop take precedence in env
				for v, x := range ex[to].live {
					fr.env[v] = x
				}
				route(to, ex[to])
			}
			continue
		}
		in.execBlock(fr, b, p, route)
	}
	return
}

func (in *Interp) runLoop(fr *frame, l *loop, entry *pending) map[*ssa.BasicBlock]*pending {
	all := map[*ssa.BasicBlock]*pending{}
	cur := entry
	for it := 0; ; it++ {
		if in.cut > 0 && it >= in.cut && len(all) > 0 {
			break // histories with more iterations are not followed
		}
		if it > in.maxIter {
			in.curPos = blockPos(l.header)
			in.imprecise(fmt.Sprintf("loop not bounded within %d iterations", in.maxIter))
			break
		}
		if fold := in.tryFold(fr, l, cur, it); fold != nil {
			for to, p := range fold {
				all[to] = in.mergePending(all[to], p)
			}
			return all
		}
		back, ex := in.runRegion(fr, l, cur)
		for to, p := range ex {
			all[to] = in.mergePending(all[to], p)
		}
		if back == nil || back.st.pc == False {
			break
		}
		cur = back
	}
	return all
}

func blockPos(b *ssa.BasicBlock) token.Pos {
	for _, i := range b.Instrs {
		if i.Pos() != 0 {
			return i.Pos()
		}
	}
	return b.Parent().Pos()
}

func (in *Interp) phisFor(fr *frame, from, to *ssa.BasicBlock) map[*ssa.Phi]Val {
	var m map[*ssa.Phi]Val
	idx := -1
	for i, p := range to.Preds {
		if p == from {
			idx = i
		}
	}
	for _, ins := range to.Instrs {
		ph, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if m == nil {
			m = map[*ssa.Phi]Val{}
		}
		m[ph] = in.val(fr, ph.Edges[idx])
	}
	return m
}

func (in *Interp) execBlock(fr *frame, b *ssa.BasicBlock, p *pending, route func(*ssa.BasicBlock, *pending)) {
	st := p.st
	for ph, v := range p.phis {
		fr.env[ph] = v
	}
	in.curFn = fr.fn
	for _, ins := range b.Instrs {
		in.steps++
		if overBudget.Load() {
			panic("memory budget exceeded")
		}
		if in.steps&0xfffff == 0 && in.trace {
			fmt.Fprintln(os.Stderr, "steps", in.steps, fr.fn, len(tab))
		}
		if ins.Pos() != 0 {
			in.curPos = ins.Pos()
		}
		in.curFn = fr.fn
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
		case *ssa.Jump:
			to := b.Succs[0]
			route(to, &pending{st: st, phis: in.phisFor(fr, b, to)})
			return
		case *ssa.If:
			c := in.boolOf(in.val(fr, i.Cond))
			if in.ct != nil {
				in.ctUse("branch", fr.fn, i.Cond.Pos(), c)
			}
			t := And(st.pc, c)
			f := And(st.pc, Not(c))
			if t != False {
				s := st
				if f != False {
					s = st.fork()
				}
				s.pc = t
				to := b.Succs[0]
				route(to, &pending{st: s, phis: in.phisFor(fr, b, to)})
			}
			if f != False {
				st.pc = f
				to := b.Succs[1]
				if b.Succs[0] == b.Succs[1] {
					// same target on both sides: phi index differs but edges agree here
				}
				route(to, &pending{st: st, phis: in.phisFor(fr, b, to)})
			}
			return
		case *ssa.Return:
			var v Val
			switch len(i.Results) {
			case 0:
			case 1:
				v = in.val(fr, i.Results[0])
			default:
				t := make(Tuple, len(i.Results))
				for k, r := range i.Results {
					t[k] = in.val(fr, r)
				}
				v = t
			}
			if fr.retSt == nil || fr.retSt.pc == False {
				fr.retSt, fr.ret = st, v
			} else {
				c := Restrict(fr.retSt.pc, Or(fr.retSt.pc, st.pc))
				if v != nil {
					fr.ret = mergeVal(c, fr.ret, v)
				}
				fr.retSt = in.join(fr.retSt, st)
			}
			return
		case *ssa.Panic:
			in.addPanic(st, "panic: "+in.panicMsg(in.val(fr, i.X)), fr.fn)
			return
		case *ssa.RunDefers:
			for k := len(fr.defers) - 1; k >= 0; k-- {
				d := fr.defers[k]
				c := And(st.pc, d.pc)
				if c == False {
					continue
				}
				if c == st.pc {
					_, st = in.callVal(st, fr, d.c, d.fv, d.as)
				} else {
					o := st.fork()
					o.pc = And(st.pc, Not(d.pc))
					st.pc = c
					_, st = in.callVal(st, fr, d.c, d.fv, d.as)
					st = in.join(st, o)
				}
				if st == nil {
					return
				}
			}
		case *ssa.Defer:
			fv, as := in.prepCall(fr, &i.Call)
			fr.defers = append(fr.defers, deferred{&i.Call, st.pc, fv, as})
		case *ssa.Store:
			t := i.Val.Type()
			if !in.nonNil(st, in.val(fr, i.Addr), fr) {
				return
			}
			in.store(st, in.val(fr, i.Addr), t, in.val(fr, i.Val), True)
		case *ssa.MapUpdate:
			in.mapUpdate(st, in.val(fr, i.Map), in.val(fr, i.Key), in.val(fr, i.Value))
		case *ssa.Send, *ssa.Go, *ssa.Select:
			in.imprecise("unsupported instruction " + ins.String())
		case *ssa.Call:
			fv, as := in.prepCall(fr, &i.Call)
			v, s2 := in.callVal(st, fr, &i.Call, fv, as)
			if s2 == nil || s2.pc == False {
				return
			}
			st = s2
			in.curFn = fr.fn
			if in.ct != nil {
				v = in.ctWiden(fr, i, v)
			}
			fr.env[i] = v
		case ssa.Value:
			if in.ct != nil {
				in.ctEval(fr, i)
			}
			v := in.eval(fr, st, i)
			if st.pc == False {
				return
			}
			if in.ct != nil {
				v = in.ctWiden(fr, i, v)
			}
			fr.env[i] = v
		default:
			in.imprecise("unsupported instruction " + ins.String())
		}
	}
}

func (in *Interp) panicMsg(v Val) string {
	if f, ok := v.(Iface); ok {
		if s, ok := f.v.(Str); ok && s.known {
			return s.s
		}
	}
	return "?"
}

func (in *Interp) addPanic(st *State, msg string, fn *ssa.Function) {
	if in.modes["counts"] {
		if _, ok := countWitness(st.pc, "count", 1<<33); !ok {
			return
		}
	}
	if st.pc == False {
		return
	}
	in.panics = append(in.panics, PanicOut{st, msg, in.curPos, fn})
}

// require records a panic where cond may be false and continues with cond.
func (in *Interp) require(st *State, cond *Term, msg string, fn *ssa.Function) bool {
	if cond == True {
		return true
	}
	fail := And(st.pc, Not(cond))
	if fail == False {
		return true
	}
	f := st.fork()
	f.pc = fail
	in.addPanic(f, msg, fn)
	st.pc = And(st.pc, cond)
	return st.pc != False
}

func (in *Interp) nonNil(st *State, p Val, fr *frame) bool {
	return in.require(st, Not(in.isNil(p)), "nil pointer dereference", fr.fn)
}

// isNil gives the condition under which v is nil.
func (in *Interp) isNil(v Val) *Term {
	switch x := v.(type) {
	case Ptr:
		if x.o == nil {
			return True
		}
		return False
	case Slice:
		if x.o == nil {
			return True
		}
		return False
	case Iface:
		if x.typ == nil {
			return True
		}
		return False
	case NilFunc:
		return True
	case *FuncVal, Opaque:
		return False
	case MapRef:
		if x.o == nil {
			return True
		}
		return False
	case Choice:
		return Ite(x.c, in.isNil(x.a), in.isNil(x.b))
	case Unknown:
		unknownCtr++
		return Sym(1, fmt.Sprintf("unknown#%d(nil?%s)", unknownCtr, x.why))
	}
	unknownCtr++
	return Sym(1, fmt.Sprintf("unknown#%d(nil?)", unknownCtr))
}

func (in *Interp) boolOf(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		if x.w == 1 {
			return x
		}
		return toBool(x)
	case Choice:
		return Ite(x.c, in.boolOf(x.a), in.boolOf(x.b))
	}
	unknownCtr++
	return Sym(1, fmt.Sprintf("unknown#%d(cond)", unknownCtr))
}

func (in *Interp) constVal(c *ssa.Const) Val {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	t := c.Type()
	switch c.Value.Kind() {
	case constant.Bool:
		if constant.BoolVal(c.Value) {
			return True
		}
		return False
	case constant.String:
		return Str{known: true, s: constant.StringVal(c.Value)}
	case constant.Int:
		if isInt(t) {
			if u, ok := constant.Uint64Val(c.Value); ok {
				return Const(width(t), u)
			}
			i, _ := constant.Int64Val(c.Value)
			return Const(width(t), uint64(i))
		}
	}
	return Opaque{c.String()}
}

func (in *Interp) global(g *ssa.Global) *Object {
	if o, ok := in.globals[g]; ok {
		return o
	}
	t := g.Type().(*types.Pointer).Elem()
	o := &Object{id: len(in.objs), name: g.String(), size: sizes.Sizeof(t), typ: t, pos: g.Pos()}
	if g.Pkg == nil || !in.modPath(g.Pkg.Pkg.Path()) {
		o.sym = "glob:" + g.String()
	}
	in.objs = append(in.objs, o)
	in.globals[g] = o
	return o
}

func (in *Interp) val(fr *frame, v ssa.Value) Val {
	switch x := v.(type) {
	case *ssa.Const:
		return in.constVal(x)
	case *ssa.Global:
		return Ptr{in.global(x), Const(64, 0)}
	case *ssa.Function:
		return &FuncVal{fn: x}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == x {
				return fr.free[i]
			}
		}
	case *ssa.Builtin:
		return x
	}
	if r, ok := fr.env[v]; ok {
		return r
	}
	in.imprecise("value not available: " + v.Name() + " " + v.String())
	return freshUnknown(v.Type(), "undefined")
}

func fieldOff(t types.Type, i int) (int64, types.Type) {
	s := t.Underlying().(*types.Struct)
	fs := make([]*types.Var, s.NumFields())
	for k := range fs {
		fs[k] = s.Field(k)
	}
	return sizes.Offsetsof(fs)[i], fs[i].Type()
}

func mapPtr(v Val, f func(p Ptr) Val) Val {
	switch x := v.(type) {
	case Ptr:
		if x.o == nil {
			return x
		}
		return f(x)
	case Choice:
		return mergeVal(x.c, mapPtr(x.a, f), mapPtr(x.b, f))
	}
	return v
}

func to64(t *Term, typ types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(typ) {
		return Sext(t, 64)
	}
	return Zext(t, 64)
}

func (in *Interp) eval(fr *frame, st *State, v ssa.Value) Val {
	switch i := v.(type) {
	case *ssa.Alloc:
		t := i.Type().(*types.Pointer).Elem()
		nm := i.Comment
		if nm == "" {
			nm = i.Name()
		}
		o := in.allocType(st, fr.fn.Name()+"."+nm, t)
		if l := in.ladder; l != nil && len(l.locals) < 24 && isNamed(t, l.typ) {
			l.locals = append(l.locals, Ptr{o, Const(64, 0)})
		}
		return Ptr{o, Const(64, 0)}
	case *ssa.BinOp:
		return in.binop(st, fr, i.Op, in.val(fr, i.X), in.val(fr, i.Y), i.X.Type(), i.Y.Type())
	case *ssa.UnOp:
		x := in.val(fr, i.X)
		switch i.Op {
		case token.MUL:
			if !in.nonNil(st, x, fr) {
				return nil
			}
			return in.load(st, x, i.Type())
		case token.NOT:
			return Not(in.boolOf(x))
		case token.SUB:
			if t, ok := x.(*Term); ok {
				return lift1(0, t, Neg)
			}
		case token.XOR:
			if t, ok := x.(*Term); ok {
				return BNot(t)
			}
		}
		return freshUnknown(i.Type(), "unop")
	case *ssa.FieldAddr:
		st0 := i.X.Type().Underlying().(*types.Pointer).Elem()
		off, _ := fieldOff(st0, i.Field)
		x := in.val(fr, i.X)
		if !in.nonNil(st, x, fr) {
			return nil
		}
		return mapPtr(x, func(p Ptr) Val { return Ptr{p.o, Add(p.off, Const(64, uint64(off)))} })
	case *ssa.Field:
		x := in.val(fr, i.X)
		return in.aggField(x, i.X.Type(), i.Field)
	case *ssa.IndexAddr:
		x := in.val(fr, i.X)
		idx, ok := in.val(fr, i.Index).(*Term)
		if !ok {
			return Unknown{"index"}
		}
		idx = to64(idx, i.Index.Type())
		var elem types.Type
		switch u := i.X.Type().Underlying().(type) {
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			elem = at.Elem()
			if !in.nonNil(st, x, fr) {
				return nil
			}
			if !in.require(st, And(Not(Slt(idx, Const(64, 0))), Slt(idx, Const(64, uint64(at.Len())))), "index out of range", fr.fn) {
				return nil
			}
			es := sizes.Sizeof(elem)
			return mapPtr(x, func(p Ptr) Val { return Ptr{p.o, Add(p.off, MulConst(idx, es))} })
		case *types.Slice:
			elem = u.Elem()
			es := sizes.Sizeof(elem)
			ln := in.lenOf(x)
			if !in.require(st, in.inRange(idx, ln), "index out of range", fr.fn) {
				return nil
			}
			return mapSlice(x, func(s Slice) Val {
				if s.o == nil {
					return Ptr{}
				}
				return Ptr{s.o, Add(s.off, MulConst(idx, es))}
			})
		}
	case *ssa.Index:
		x := in.val(fr, i.X)
		idx, _ := in.val(fr, i.Index).(*Term)
		if a, ok := x.(Agg); ok && idx != nil {
			at := i.X.Type().Underlying().(*types.Array)
			n := len(flatten(at.Elem()))
			idx = to64(idx, i.Index.Type())
			if !in.require(st, And(Not(Slt(idx, Const(64, 0))), Slt(idx, Const(64, uint64(at.Len())))), "index out of range", fr.fn) {
				return nil
			}
			var r Val
			ok := in.offsets(idx, at.Len(), func(c *Term, k int64) {
				if k < 0 || k >= at.Len() {
					return
				}
				x := mkAgg(at.Elem(), a.leaves[int(k)*n:int(k+1)*n])
				if r == nil {
					r = x
				} else {
					r = mergeVal(c, x, r)
				}
			})
			if ok && r != nil {
				return r
			}
		}
		if s, ok := x.(Str); ok && idx != nil && idx.k == KConst {
			if b, ok := s.bytes(); ok && idx.c < uint64(len(b)) {
				return b[idx.c]
			}
		}
		return freshUnknown(i.Type(), "index")
	case *ssa.Slice:
		return in.sliceOp(fr, st, i)
	case *ssa.Convert:
		return in.convert(st, in.val(fr, i.X), i.X.Type(), i.Type())
	case *ssa.ChangeType:
		x := in.val(fr, i.X)
		if a, ok := x.(Agg); ok {
			return Agg{i.Type(), a.leaves}
		}
		return x
	case *ssa.ChangeInterface:
		return in.val(fr, i.X)
	case *ssa.MakeInterface:
		return Iface{i.X.Type(), in.val(fr, i.X)}
	case *ssa.MakeClosure:
		f := &FuncVal{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.free = append(f.free, in.val(fr, b))
		}
		return f
	case *ssa.MakeMap:
		o := in.newObj(st, "map", 8, nil)
		o.isMap = true
		st.mut(o).keys = map[string]mapEnt{}
		return MapRef{o}
	case *ssa.MakeSlice:
		ln := in.val(fr, i.Len).(*Term)
		cp := in.val(fr, i.Cap).(*Term)
		ln, cp = to64(ln, i.Len.Type()), to64(cp, i.Cap.Type())
		elem := i.Type().Underlying().(*types.Slice).Elem()
		_, hi, ok := Range(cp)
		if !ok || hi > 1<<20 || hi < 0 {
			in.imprecise("make with unbounded size")
			return Unknown{"make"}
		}
		lo, _, _ := Range(ln)
		if lo < 0 {
			if !in.require(st, Not(Slt(ln, Const(64, 0))), "makeslice: len out of range", fr.fn) {
				return nil
			}
		}
		o := in.newObj(st, fr.fn.Name()+".make", hi*sizes.Sizeof(elem), types.NewArray(elem, hi))
		return Slice{o, Const(64, 0), ln, cp, elem}
	case *ssa.Lookup:
		return in.lookup(st, fr, i)
	case *ssa.Extract:
		x := in.val(fr, i.Tuple)
		return tupleAt(x, i.Index, i.Type())
	case *ssa.TypeAssert:
		return in.typeAssert(st, fr, i)
	case *ssa.Range, *ssa.Next:
		in.imprecise("range over map or string")
		return freshUnknown(v.Type(), "range")
	case *ssa.SliceToArrayPointer:
		x := in.val(fr, i.X)
		return mapSlice(x, func(s Slice) Val {
			if s.o == nil {
				return Ptr{}
			}
			return Ptr{s.o, s.off}
		})
	}
	in.imprecise(fmt.Sprintf("unsupported value %T", v))
	return freshUnknown(v.Type(), "unsupported")
}

func tupleAt(x Val, i int, t types.Type) Val {
	switch y := x.(type) {
	case Tuple:
		return y[i]
	case Choice:
		return mergeVal(y.c, tupleAt(y.a, i, t), tupleAt(y.b, i, t))
	}
	return freshUnknown(t, "extract")
}

func mkAgg(t types.Type, ls []Val) Val {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return Agg{t, append([]Val(nil), ls...)}
	}
	return ls[0]
}

func (in *Interp) aggField(x Val, t types.Type, f int) Val {
	switch a := x.(type) {
	case Agg:
		s := t.Underlying().(*types.Struct)
		n := 0
		for k := 0; k < f; k++ {
			n += len(flatten(s.Field(k).Type()))
		}
		ft := s.Field(f).Type()
		return mkAgg(ft, a.leaves[n:n+len(flatten(ft))])
	case Choice:
		return mergeVal(a.c, in.aggField(a.a, t, f), in.aggField(a.b, t, f))
	}
	return freshUnknown(t.Underlying().(*types.Struct).Field(f).Type(), "field")
}

func mapSlice(v Val, f func(s Slice) Val) Val {
	switch x := v.(type) {
	case Slice:
		return f(x)
	case Choice:
		return mergeVal(x.c, mapSlice(x.a, f), mapSlice(x.b, f))
	}
	return Unknown{"slice"}
}

func (in *Interp) lenOf(v Val) *Term {
	switch x := v.(type) {
	case Slice:
		return x.len
	case Str:
		if x.known {
			return Const(64, uint64(len(x.s)))
		}
		return x.len
	case Choice:
		return Ite(x.c, in.lenOf(x.a), in.lenOf(x.b))
	case MapRef:
	}
	unknownCtr++
	return Sym(64, fmt.Sprintf("unknown#%d(len)", unknownCtr))
}
func (in *Interp) capOf(v Val) *Term {
	switch x := v.(type) {
	case Slice:
		return x.cap
	case Choice:
		return Ite(x.c, in.capOf(x.a), in.capOf(x.b))
	}
	return in.lenOf(Unknown{})
}

// inRange is 0 <= i < n.
func (in *Interp) inRange(i, n *Term) *Term {
	return And(Not(Slt(i, Const(64, 0))), Slt(i, n))
}
func le(a, b *Term) *Term { return Not(Slt(b, a)) }

func (in *Interp) sliceOp(fr *frame, st *State, i *ssa.Slice) Val {
	x := in.val(fr, i.X)
	get := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		t, ok := in.val(fr, v).(*Term)
		if !ok {
			unknownCtr++
			return Sym(64, fmt.Sprintf("unknown#%d(slice index)", unknownCtr))
		}
		return to64(t, v.Type())
	}
	lo, hi, mx := get(i.Low), get(i.High), get(i.Max)
	if lo == nil {
		lo = Const(64, 0)
	}
	switch u := i.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		if !in.nonNil(st, x, fr) {
			return nil
		}
		n := Const(64, uint64(at.Len()))
		if hi == nil {
			hi = n
		}
		if mx == nil {
			mx = n
		}
		c := And(And(le(Const(64, 0), lo), le(lo, hi)), And(le(hi, mx), le(mx, n)))
		if !in.require(st, c, "slice bounds out of range", fr.fn) {
			return nil
		}
		es := sizes.Sizeof(at.Elem())
		var conv func(v Val) Val
		conv = func(v Val) Val {
			switch p := v.(type) {
			case Ptr:
				return Slice{p.o, Add(p.off, MulConst(lo, es)), Sub(hi, lo), Sub(mx, lo), at.Elem()}
			case Choice:
				return mergeVal(p.c, conv(p.a), conv(p.b))
			}
			return Unknown{"slice of unknown pointer"}
		}
		return conv(x)
	case *types.Slice:
		if hi == nil {
			hi = in.lenOf(x)
		}
		cp := in.capOf(x)
		if mx == nil {
			mx = cp
		}
		c := And(And(le(Const(64, 0), lo), le(lo, hi)), And(le(hi, mx), le(mx, cp)))
		if !in.require(st, c, "slice bounds out of range", fr.fn) {
			return nil
		}
		es := sizes.Sizeof(u.Elem())
		return mapSlice(x, func(s Slice) Val {
			return Slice{s.o, Add(s.off, MulConst(lo, es)), Sub(hi, lo), Sub(mx, lo), s.elem}
		})
	case *types.Basic:
		if s, ok := x.(Str); ok && lo.k == KConst && (hi == nil || hi.k == KConst) {
			if b, ok := s.bytes(); ok {
				h := len(b)
				if hi != nil {
					h = int(hi.c)
				}
				if int(lo.c) <= h && h <= len(b) {
					return mkStr(b[lo.c:h])
				}
			}
		}
	}
	return freshUnknown(i.Type(), "slice op")
}

func (in *Interp) convert(st *State, x Val, from, to types.Type) Val {
	if c, ok := x.(Choice); ok {
		return mergeVal(c.c, in.convert(st, c.a, from, to), in.convert(st, c.b, from, to))
	}
	if isInt(from) && isInt(to) {
		t, ok := x.(*Term)
		if !ok {
			return freshUnknown(to, "convert")
		}
		w := width(to)
		if w <= t.w {
			return Trunc(t, w)
		}
		if isSigned(from) {
			return Sext(t, w)
		}
		return Zext(t, w)
	}
	switch x.(type) {
	case Ptr: // unsafe.Pointer <-> *T, uintptr
		if isInt(to) {
			p := x.(Ptr)
			if p.o == nil {
				return Const(64, 0)
			}
			base := NumSym(64, fmt.Sprintf("addr:%s#%d", p.o.name, p.o.id), 1<<20, 1<<46)
			return Add(base, p.off)
		}
		return x
	case Slice:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
			v := x.(Slice)
			if v.len.k == KConst && v.len.c <= 1<<14 && (v.o != nil || v.len.c == 0) {
				bs := make([]*Term, v.len.c)
				for i := range bs {
					t, ok := in.load(st, Ptr{v.o, Add(v.off, Const(64, uint64(i)))}, v.elem).(*Term)
					if !ok || t.w != 8 {
						return Unknown{"string of bytes"}
					}
					bs[i] = t
				}
				return mkStr(bs)
			}
			return Unknown{"string of bytes"}
		}
	case Str:
		if sl, ok := to.Underlying().(*types.Slice); ok {
			s := x.(Str)
			if bs, ok := s.bytes(); ok && width(sl.Elem()) == 8 {
				n := int64(len(bs))
				o := in.newObj(st, "bytes", n, types.NewArray(sl.Elem(), n))
				for i := int64(0); i < n; i++ {
					in.putCell(st, o, i, 1, bs[i])
				}
				return Slice{o, Const(64, 0), Const(64, uint64(n)), Const(64, uint64(n)), sl.Elem()}
			}
		}
		return x
	}
	return freshUnknown(to, "convert")
}

func (in *Interp) binop(st *State, fr *frame, op token.Token, x, y Val, tx, ty types.Type) Val {
	if op == token.EQL || op == token.NEQ {
		r := in.equal(x, y)
		if op == token.NEQ {
			return Not(r)
		}
		return r
	}
	a, ok1 := x.(*Term)
	b, ok2 := y.(*Term)
	if s1, ok := x.(Str); ok && op == token.ADD {
		if s2, ok := y.(Str); ok {
			b1, ok1 := s1.bytes()
			b2, ok2 := s2.bytes()
			if ok1 && ok2 {
				return mkStr(append(append([]*Term(nil), b1...), b2...))
			}
		}
		return Unknown{"string concat"}
	}
	if !ok1 || !ok2 {
		return freshUnknown(types.Typ[types.Bool], "binop")
	}
	signed := isSigned(tx)
	switch op {
	case token.ADD:
		return Add(a, b)
	case token.SUB:
		return Add(a, lift1(0, b, Neg))
	case token.MUL:
		return Mul(a, b)
	case token.AND:
		return BAnd(a, b)
	case token.OR:
		return BOr(a, b)
	case token.XOR:
		return Xor(a, b)
	case token.AND_NOT:
		return BAnd(a, BNot(b))
	case token.SHL, token.SHR:
		return in.shift(st, fr, op, a, b, signed, isSigned(ty))
	case token.QUO, token.REM:
		if b.k != KConst || b.c == 0 {
			if !in.require(st, Not(Eq(b, Const(b.w, 0))), "integer divide by zero", fr.fn) {
				return nil
			}
		}
		return lift2v(a, b, func(a, b *Term) *Term {
			if a.k == KConst && b.k == KConst && b.c != 0 {
				if signed {
					p, q := sgn(a), sgn(b)
					if op == token.QUO {
						return Const(a.w, uint64(p/q))
					}
					return Const(a.w, uint64(p%q))
				}
				if op == token.QUO {
					return Const(a.w, a.c/b.c)
				}
				return Const(a.w, a.c%b.c)
			}
			if b.k == KConst {
				if m := sgn(b); m > 0 {
					lo, _, ok := Range(a)
					if q := exactDiv(a, m); q != nil && signed {
						if op == token.QUO {
							return q
						}
						return Const(a.w, 0)
					}
					if ok && lo >= 0 {
						var r *Term
						if op == token.QUO {
							r = divConst(a, m)
						} else {
							r = modConst(a, m)
						}
						if r != nil {
							return r
						}
					}
					if !signed && m&(m-1) == 0 {
						k := uint(0)
						for 1<<k < m {
							k++
						}
						if op == token.QUO {
							return Shr(a, k)
						}
						return BAnd(a, Const(a.w, uint64(m-1)))
					}
				}
			}
			return App(a.w, op.String(), a, b)
		})
	case token.LSS:
		return Lt(a, b, signed)
	case token.GTR:
		return Lt(b, a, signed)
	case token.LEQ:
		return Not(Lt(b, a, signed))
	case token.GEQ:
		return Not(Lt(a, b, signed))
	}
	return freshUnknown(tx, "binop "+op.String())
}

func lift2v(a, b *Term, leaf func(a, b *Term) *Term) *Term {
	if a.k != KITE && b.k != KITE {
		return leaf(a, b)
	}
	v := topVar(a, b)
	ah, al := cof(a, v)
	bh, bl := cof(b, v)
	return mkITE(v, lift2v(ah, bh, leaf), lift2v(al, bl, leaf))
}

func (in *Interp) shift(st *State, fr *frame, op token.Token, a, b *Term, signed, shSigned bool) Val {
	if shSigned && b.k != KConst {
		if lo, _, ok := Range(b); !ok || lo < 0 {
			if !in.require(st, Not(Slt(b, Const(b.w, 0))), "negative shift amount", fr.fn) {
				return nil
			}
		}
	}
	// expand small symbolic shift counts
	allConst := true
	for _, l := range leavesOf(b) {
		if l.k != KConst {
			allConst = false
		}
	}
	if !allConst {
		if s := splitNum(b, 70); s != nil {
			b = s
		} else {
			return App(a.w, op.String(), a, b)
		}
	}
	return lift2v(a, b, func(a, b *Term) *Term {
		k := uint(64)
		if b.c < 64 {
			k = uint(b.c)
		}
		if op == token.SHL {
			return Shl(a, k)
		}
		if signed {
			return Ashr(a, k)
		}
		return Shr(a, k)
	})
}

func (in *Interp) equal(x, y Val) *Term {
	switch a := x.(type) {
	case Choice:
		return Ite(a.c, in.equal(a.a, y), in.equal(a.b, y))
	case *Term:
		if b, ok := y.(*Term); ok {
			return Eq(a, b)
		}
	case Ptr:
		if b, ok := y.(Ptr); ok {
			if a.o != b.o {
				return False
			}
			if a.o == nil {
				return True
			}
			return Eq(a.off, b.off)
		}
	case Iface:
		if b, ok := y.(Iface); ok {
			if a.typ == nil || b.typ == nil {
				if a.typ == nil && b.typ == nil {
					return True
				}
				return False
			}
			if !types.Identical(a.typ, b.typ) {
				return False
			}
			return in.equal(a.v, b.v)
		}
	case Opaque:
		if b, ok := y.(Opaque); ok {
			if a == b {
				return True
			}
			return False
		}
	case Str:
		if b, ok := y.(Str); ok {
			if a.known && b.known {
				if a.s == b.s {
					return True
				}
				return False
			}
			p, ok1 := a.bytes()
			q, ok2 := b.bytes()
			if ok1 && ok2 {
				if len(p) != len(q) {
					return False
				}
				r := True
				for i := range p {
					r = And(r, Eq(p[i], q[i]))
				}
				return r
			}
		}
	case Agg:
		if b, ok := y.(Agg); ok && len(a.leaves) == len(b.leaves) {
			r := True
			for i := range a.leaves {
				r = And(r, in.equal(a.leaves[i], b.leaves[i]))
			}
			return r
		}
	case Slice:
		if b, ok := y.(Slice); ok && b.o == nil {
			return in.isNil(a)
		}
	case NilFunc, *FuncVal, MapRef:
		if in.isNil(y) == True {
			return in.isNil(x)
		}
		if in.isNil(x) == True {
			return in.isNil(y)
		}
	}
	if c, ok := y.(Choice); ok {
		return Ite(c.c, in.equal(x, c.a), in.equal(x, c.b))
	}
	unknownCtr++
	return Sym(1, fmt.Sprintf("unknown#%d(==)", unknownCtr))
}

func keyOf(v Val) (string, bool) {
	switch x := v.(type) {
	case *Term:
		if x.k == KConst {
			return fmt.Sprintf("%d:%x", x.w, x.c), true
		}
	case Str:
		if x.known {
			return "s" + x.s, true
		}
	}
	return "", false
}

func (in *Interp) mapUpdate(st *State, m, k, v Val) {
	r, ok := m.(MapRef)
	ks, ok2 := keyOf(k)
	if !ok || !ok2 || r.o == nil {
		in.imprecise("map update with unresolved map or key")
		return
	}
	os := st.mut(r.o)
	if os.keys == nil {
		os.keys = map[string]mapEnt{}
	}
	os.keys[ks] = mapEnt{k, v}
}

func (in *Interp) lookup(st *State, fr *frame, i *ssa.Lookup) Val {
	x := in.val(fr, i.X)
	k := in.val(fr, i.Index)
	r, ok := x.(MapRef)
	if !ok {
		if s, ok := x.(Str); ok && s.known {
			if t, ok := k.(*Term); ok && t.k == KConst && t.c < uint64(len(s.s)) {
				return Const(8, uint64(s.s[t.c]))
			}
		}
		return freshUnknown(i.Type(), "lookup")
	}
	et := i.X.Type().Underlying().(*types.Map).Elem()
	var res Val = zeroOf(et)
	found := False
	if r.o != nil {
		os := st.getRaw(r.o.id)
		if os != nil {
			if ks, ok := keyOf(k); ok {
				if e, ok := os.keys[ks]; ok {
					res, found = e.v, True
				}
			} else {
				var kk []string
				for s := range os.keys {
					kk = append(kk, s)
				}
				sort.Strings(kk)
				for _, s := range kk {
					e := os.keys[s]
					c := in.equal(k, e.key)
					res = mergeVal(c, e.v, res)
					found = Or(found, c)
				}
			}
		}
	}
	if i.CommaOk {
		return Tuple{res, found}
	}
	return res
}

func (in *Interp) typeAssert(st *State, fr *frame, i *ssa.TypeAssert) Val {
	x := in.val(fr, i.X)
	var rec func(v Val) (Val, *Term)
	rec = func(v Val) (Val, *Term) {
		switch f := v.(type) {
		case Choice:
			a, ca := rec(f.a)
			b, cb := rec(f.b)
			return mergeVal(f.c, a, b), Ite(f.c, ca, cb)
		case Iface:
			if f.typ == nil {
				return zeroOf(i.AssertedType), False
			}
			if it, ok := i.AssertedType.Underlying().(*types.Interface); ok {
				if types.Implements(f.typ, it) || f.typ == types.Typ[types.Invalid] {
					return f, True
				}
				return zeroOf(i.AssertedType), False
			}
			if types.Identical(f.typ, i.AssertedType) {
				return f.v, True
			}
			return zeroOf(i.AssertedType), False
		}
		unknownCtr++
		return freshUnknown(i.AssertedType, "type assert"), Sym(1, fmt.Sprintf("unknown#%d(type)", unknownCtr))
	}
	v, c := rec(x)
	if i.CommaOk {
		return Tuple{v, c}
	}
	if !in.require(st, c, "interface conversion", fr.fn) {
		return nil
	}
	return v
}

// ---------- calls

func (in *Interp) prepCall(fr *frame, c *ssa.CallCommon) (Val, []Val) {
	var as []Val
	fv := in.val(fr, c.Value)
	for _, a := range c.Args {
		as = append(as, in.val(fr, a))
	}
	return fv, as
}

func (in *Interp) callVal(st *State, fr *frame, c *ssa.CallCommon, fv Val, as []Val) (Val, *State) {
	in.callSites++
	if b, ok := fv.(*ssa.Builtin); ok {
		return in.builtin(st, fr, b, c, as)
	}
	if c.IsInvoke() {
		return in.invoke(st, fr, c, fv, as)
	}
	switch f := fv.(type) {
	case *FuncVal:
		return in.callFunc(st, f.fn, as, f.free, c)
	case Choice:
		return in.forkCall(st, f.c, func(s *State) (Val, *State) { return in.callVal(s, fr, c, f.a, as) },
			func(s *State) (Val, *State) { return in.callVal(s, fr, c, f.b, as) })
	case NilFunc:
		in.addPanic(st, "call of nil function", fr.fn)
		return nil, nil
	}
	in.imprecise("call of unknown function")
	for _, a := range as {
		in.havocPtr(st, a)
	}
	return freshUnknown(resultType(c.Signature()), "unknown call"), st
}

func (in *Interp) forkCall(st *State, c *Term, fa, fb func(*State) (Val, *State)) (Val, *State) {
	ta, tb := And(st.pc, c), And(st.pc, Not(c))
	if ta == False {
		return fb(st)
	}
	if tb == False {
		return fa(st)
	}
	s2 := st.fork()
	st.pc, s2.pc = ta, tb
	va, sa := fa(st)
	vb, sb := fb(s2)
	if sa == nil || sa.pc == False {
		return vb, sb
	}
	if sb == nil || sb.pc == False {
		return va, sa
	}
	cc := Restrict(sa.pc, Or(sa.pc, sb.pc))
	var v Val
	if va != nil {
		v = mergeVal(cc, va, vb)
	}
	return v, in.join(sa, sb)
}

func (in *Interp) invoke(st *State, fr *frame, c *ssa.CallCommon, recv Val, as []Val) (Val, *State) {
	switch f := recv.(type) {
	case Choice:
		return in.forkCall(st, f.c, func(s *State) (Val, *State) { return in.invoke(s, fr, c, f.a, as) },
			func(s *State) (Val, *State) { return in.invoke(s, fr, c, f.b, as) })
	case Iface:
		if f.typ == nil {
			in.addPanic(st, "nil interface method call", fr.fn)
			return nil, nil
		}
		if f.typ != types.Typ[types.Invalid] {
			m := in.prog.LookupMethod(f.typ, c.Method.Pkg(), c.Method.Name())
			if m != nil {
				return in.callFunc(st, m, append([]Val{f.v}, as...), nil, c)
			}
		}
	}
	in.imprecise("method call on unknown interface value: " + c.Method.Name())
	for _, a := range as {
		in.havocPtr(st, a)
	}
	return freshUnknown(resultType(c.Signature()), "unknown method"), st
}

func (in *Interp) callFunc(st *State, fn *ssa.Function, as []Val, free []Val, c *ssa.CallCommon) (Val, *State) {
	if in.ct != nil {
		in.ctCall(st, fn, as, in.curPos)
	}
	if in.walk != nil {
		in.walkEntry(st, fn, as)
	}
	if in.ladder != nil {
		in.ladderEntry(st, fn, as)
	}
	if m := in.modelFor(fn); m != nil {
		return m(in, st, fn, as, c)
	}
	return in.callFn(st, fn, as, free)
}

func (in *Interp) builtin(st *State, fr *frame, b *ssa.Builtin, c *ssa.CallCommon, as []Val) (Val, *State) {
	switch b.Name() {
	case "len":
		if m, ok := as[0].(MapRef); ok {
			n := 0
			if m.o != nil {
				if os := st.getRaw(m.o.id); os != nil {
					n = len(os.keys)
				}
			}
			return Const(64, uint64(n)), st
		}
		if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			return Const(64, uint64(p.Elem().Underlying().(*types.Array).Len())), st
		}
		if a, ok := c.Args[0].Type().Underlying().(*types.Array); ok {
			return Const(64, uint64(a.Len())), st
		}
		return in.lenOf(as[0]), st
	case "cap":
		if p, ok := c.Args[0].Type().Underlying().(*types.Pointer); ok {
			return Const(64, uint64(p.Elem().Underlying().(*types.Array).Len())), st
		}
		return in.capOf(as[0]), st
	case "copy":
		return in.copyOp(st, as[0], as[1]), st
	case "append":
		return in.appendOp(st, fr, as[0], as[1], c.Args[0].Type().Underlying().(*types.Slice).Elem()), st
	case "min", "max":
		r := as[0].(*Term)
		sg := isSigned(c.Args[0].Type())
		for _, a := range as[1:] {
			x := a.(*Term)
			l := Lt(x, r, sg)
			if b.Name() == "max" {
				l = Lt(r, x, sg)
			}
			r = Ite(l, x, r)
		}
		return r, st
	case "clear":
		if s, ok := as[0].(Slice); ok {
			n := s.len
			_, hi, ok := Range(n)
			if ok && hi < 1<<16 {
				es := sizes.Sizeof(s.elem)
				for k := int64(0); k < hi; k++ {
					in.store(st, Ptr{s.o, Add(s.off, Const(64, uint64(k*es)))}, s.elem, zeroOf(s.elem), Slt(Const(64, uint64(k)), n))
				}
				return nil, st
			}
		}
		in.imprecise("clear")
		return nil, st
	case "print", "println":
		return nil, st
	case "ssa:wrapnilchk":
		return as[0], st
	case "recover":
		return Iface{}, st
	case "Add", "Slice", "SliceData", "StringData", "String":
		if b.Name() == "Slice" {
			if p, ok := as[0].(Ptr); ok && p.o != nil {
				n := to64(as[1].(*Term), c.Args[1].Type())
				return Slice{p.o, p.off, n, n, c.Args[0].Type().Underlying().(*types.Pointer).Elem()}, st
			}
		}
		if b.Name() == "SliceData" {
			if s, ok := as[0].(Slice); ok {
				return Ptr{s.o, s.off}, st
			}
		}
		if b.Name() == "Add" {
			if p, ok := as[0].(Ptr); ok && p.o != nil {
				return Ptr{p.o, Add(p.off, to64(as[1].(*Term), c.Args[1].Type()))}, st
			}
		}
	case "delete":
		if m, ok := as[0].(MapRef); ok && m.o != nil {
			if k, ok := keyOf(as[1]); ok {
				delete(st.mut(m.o).keys, k)
				return nil, st
			}
		}
	}
	in.imprecise("builtin " + b.Name())
	return freshUnknown(resultType(c.Signature()), "builtin"), st
}

func (in *Interp) copyOp(st *State, d, s Val) *Term {
	if ch, ok := d.(Choice); ok { // destination chosen at run time: guarded copies
		return Ite(ch.c, in.copyGuard(st, ch.a, s, ch.c), in.copyGuard(st, ch.b, s, Not(ch.c)))
	}
	return in.copyGuard(st, d, s, True)
}

func (in *Interp) copyGuard(st *State, d, s Val, g *Term) *Term {
	if ch, ok := s.(Choice); ok {
		// evaluate both sources against the same initial memory
		tmp := st.fork()
		n1 := in.copyGuard(st, d, ch.a, And(g, ch.c))
		n2 := in.copyFrom(st, tmp, d, ch.b, And(g, Not(ch.c)))
		return Ite(ch.c, n1, n2)
	}
	return in.copyFrom(st, st, d, s, g)
}

func (in *Interp) copyFrom(st, from *State, d, s Val, g *Term) *Term {
	dst, ok := d.(Slice)
	if !ok {
		in.imprecise("copy to unknown slice")
		return in.lenOf(d)
	}
	if str, ok := s.(Str); ok {
		s = in.convert(st, str, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]))
	}
	src, ok := s.(Slice)
	if !ok {
		in.imprecise("copy from unknown slice")
		if dst.o != nil {
			in.havocObj(st, dst.o, "copy from unknown")
		}
		return in.lenOf(s)
	}
	n := Ite(Slt(src.len, dst.len), src.len, dst.len)
	if dst.o == nil || src.o == nil {
		return Const(64, 0)
	}
	if in.modes["counts"] && dst.off.k == KConst && dst.len.k == KConst && dst.len.c <= 4096 && n.k != KConst && sizes.Sizeof(dst.elem) == 1 {
		for i := uint64(0); i < dst.len.c; i++ { // contents are of no interest
			in.runs++
			in.store(st, Ptr{dst.o, Const(64, dst.off.c+i)}, dst.elem, Sym(8, fmt.Sprintf("copied%d", in.runs)), g)
		}
		return n
	}
	in.move(st, from, Ptr{dst.o, dst.off}, Ptr{src.o, src.off}, n, dst.elem, g)
	return n
}

// move copies n elements (n may be symbolic, bounded).
func (in *Interp) move(st, from *State, d, s Ptr, n *Term, elem types.Type, g *Term) {
	es := sizes.Sizeof(elem)
	n = Restrict(n, st.pc)
	_, hi, ok := Range(n)
	lo, _, _ := Range(n)
	dlo, _, ok1 := Range(d.off)
	slo, _, ok2 := Range(s.off)
	if ok && ok1 {
		hi = min(hi, (d.o.size-max(dlo, 0))/es)
	}
	if ok && ok2 {
		hi = min(hi, (s.o.size-max(slo, 0))/es)
	}
	if !ok || hi > 1<<18 {
		in.imprecise("copy of unbounded length")
		in.havocObj(st, d.o, "unbounded copy")
		return
	}
	type w struct {
		k int64
		v Val
	}
	var ws []w
	// whole cells when both offsets are constant and lengths too
	if d.off.k == KConst && s.off.k == KConst && lo == hi && n.k == KConst && g == True && es == 1 {
		os := from.getRaw(s.o.id)
		if os == nil {
			os = emptyOS
		}
		so, do := sgn(s.off), sgn(d.off)
		type cw struct {
			k, w int64
			v    Val
		}
		var cs []cw
		for k := int64(0); k < hi; {
			if c, ok := os.cells[so+k]; ok && int64(c.w) <= hi-k && c.w > 0 {
				cs = append(cs, cw{k, int64(c.w), c.v})
				k += int64(c.w)
				continue
			}
			if s.o.typ != nil && !in.covering(os, so+k) {
				if ls, lw, lt, ok := leafAt(s.o.typ, so+k); ok && ls == so+k && lw <= hi-k && isInt(lt) {
					free := true
					for i := int64(1); i < lw; i++ {
						if _, has := os.cells[so+k+i]; has {
							free = false
						}
					}
					if free {
						cs = append(cs, cw{k, lw, in.loadLeafConst(from, s.o, so+k, lt)})
						k += lw
						continue
					}
				}
			}
			cs = append(cs, cw{k, 1, in.loadLeafConst(from, s.o, so+k, types.Typ[types.Uint8])})
			k++
		}
		for _, c := range cs {
			in.putCell(st, d.o, do+c.k, c.w, c.v)
		}
		return
	}
	for k := int64(0); k < hi; k++ {
		ws = append(ws, w{k, in.load(from, Ptr{s.o, Add(s.off, Const(64, uint64(k*es)))}, elem)})
	}
	for _, x := range ws {
		gg := And(g, Slt(Const(64, uint64(x.k)), n))
		in.store(st, Ptr{d.o, Add(d.off, Const(64, uint64(x.k*es)))}, elem, x.v, gg)
	}
}

func (in *Interp) appendOp(st *State, fr *frame, a, b Val, elem types.Type) Val {
	if c, ok := a.(Choice); ok {
		x := in.appendGuard(st, fr, c.a, b, elem, c.c)
		y := in.appendGuard(st, fr, c.b, b, elem, Not(c.c))
		return mergeVal(c.c, x, y)
	}
	return in.appendGuard(st, fr, a, b, elem, True)
}

func (in *Interp) appendGuard(st *State, fr *frame, a, b Val, elem types.Type, g *Term) Val {
	s, ok := a.(Slice)
	if !ok {
		in.imprecise("append to unknown slice")
		return Unknown{"append"}
	}
	if str, ok := b.(Str); ok {
		b = in.convert(st, str, types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]))
	}
	if c, ok := b.(Choice); ok {
		x := in.appendGuard(st, fr, a, c.a, elem, And(g, c.c))
		y := in.appendGuard(st, fr, a, c.b, elem, And(g, Not(c.c)))
		return mergeVal(c.c, x, y)
	}
	t, ok := b.(Slice)
	if !ok {
		in.imprecise("append of unknown slice")
		return Unknown{"append"}
	}
	es := sizes.Sizeof(elem)
	nl := Add(s.len, t.len)
	fits := Restrict(le(nl, s.cap), st.pc)
	var inplace, grown Val
	if fits != False && s.o != nil {
		if t.o != nil {
			in.move(st, st, Ptr{s.o, Add(s.off, MulConst(s.len, es))}, Ptr{t.o, t.off}, t.len, elem, And(g, fits))
		}
		inplace = Slice{s.o, s.off, nl, s.cap, elem}
		if fits == True {
			return inplace
		}
	}
	if s.o == nil {
		if lo, hi, ok := Range(t.len); ok && lo == 0 && hi == 0 {
			return s
		}
	}
	_, hi, ok2 := Range(nl)
	if !ok2 || hi > 1<<18 {
		in.imprecise("append of unbounded length")
		return Unknown{"append"}
	}
	o := in.newObj(st, fr.fn.Name()+".append", hi*es, types.NewArray(elem, hi))
	if s.o != nil {
		in.move(st, st, Ptr{o, Const(64, 0)}, Ptr{s.o, s.off}, s.len, elem, True)
	}
	if t.o != nil {
		in.move(st, st, Ptr{o, MulConst(s.len, es)}, Ptr{t.o, t.off}, t.len, elem, True)
	}
	grown = Slice{o, Const(64, 0), nl, nl, elem}
	if inplace == nil {
		return grown
	}
	return mergeVal(fits, inplace, grown)
}
