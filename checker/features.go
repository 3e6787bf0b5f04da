package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C24: optional CPU instructions are reachable only behind their feature flag.
// Requirements flow from instructions to the assembly routine's entry (unless
// a flag test dominates them), from there to Go call sites, and up the call
// graph until a dominating test of the flag discharges them.

type featSet map[string]bool

func (a featSet) clone() featSet {
	r := featSet{}
	for k := range a {
		r[k] = true
	}
	return r
}

func (a featSet) addAll(b featSet) featSet {
	for k := range b {
		a[k] = true
	}
	return a
}

// nil stands for "all features" (the condition can never be true).
func meetFeat(a, b featSet) featSet {
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	r := featSet{}
	for k := range a {
		if b[k] {
			r[k] = true
		}
	}
	return r
}

// instrFeature classifies an opcode: the feature it needs, or "" when it
// belongs to the baseline; ok is false for opcodes this table does not know.
func instrFeature(arch, op string) (string, bool) {
	has := func(list ...string) bool {
		for _, p := range list {
			if strings.HasPrefix(op, p) {
				return true
			}
		}
		return false
	}
	if arch == "arm64" {
		if has("AES") {
			return "AES", true
		}
		if has("SHA1", "SHA256", "SHA512", "VPMULL", "CRC32", "CAS", "LDADD", "SWP", "VEOR3", "VBCAX", "VRAX1", "VXAR") {
			return "unflagged extension", true
		}
		return "", true
	}
	if has("MULX", "RORX", "SARX", "SHLX", "SHRX", "BZHI", "PDEP", "PEXT") {
		return "BMI2", true
	}
	if has("ADCX", "ADOX") {
		return "ADX", true
	}
	if has("AESENC", "AESDEC", "AESIMC", "AESKEYGENASSIST") {
		return "AES", true
	}
	if has("RDSEED", "RDRAND", "ANDN", "BLSI", "BLSR", "BLSMSK", "BEXTR", "LZCNT", "TZCNT", "POPCNT", "PCLMUL", "PSHUFB", "PALIGNR", "PINSRQ", "PINSRD", "PINSRB", "PEXTRQ", "PEXTRD",
		"PEXTRB", "PBLEND", "BLEND", "PTEST", "SHA", "CRC32", "VA", "VP", "VM", "VX", "VE", "VI", "VB", "VC", "VD", "VF", "VG", "VH", "VL", "VO", "VR", "VS", "VT", "VU", "VZ", "MOVBE", "ROUND", "PMOV", "PHADD", "PSIGN", "PABS") {
		if op == "VERR" || op == "VERW" {
			return "", true
		}
		return "unflagged extension", true
	}
	if has("MOV", "ADD", "ADC", "SUB", "SBB", "MUL", "IMUL", "DIV", "IDIV", "XOR", "AND", "OR", "NOT", "NEG", "INC", "DEC", "CMP", "TEST", "LEA", "SHL", "SHR", "SAR", "SAL", "ROL", "ROR",
		"RCL", "RCR", "J", "CALL", "RET", "NOP", "PUSH", "POP", "SET", "CMOV", "BT", "BSWAP", "BSF", "BSR", "XCHG", "CPUID", "PXOR", "PAND", "POR", "PSHUF", "PSLL", "PSRL", "PSRA", "PADD", "PSUB",
		"PUNPCK", "PMULULQ", "PMULUDQ", "SHUF", "UNPCK", "CLC", "STC", "CMC", "CLD", "STD", "REP", "LOCK", "CQO", "CDQ", "CWD", "UNDEF", "PCMPEQ", "PCMPGT", "PEXTRW", "PINSRW", "XADD", "LFENCE", "MFENCE", "SFENCE", "PREFETCH", "RDTSC", "STOS", "LODS", "LAHF", "SAHF", "PCALIGN", "INT", "PACK") {
		return "", true
	}
	return "", false
}

type featAna struct {
	p       *Program
	asm     map[string]*asmData
	res     *Result
	gfacts  map[*ssa.Global]featSet
	gbusy   map[*ssa.Global]bool
	stores  map[*ssa.Global][]*ssa.Store
	vbusy   map[ssa.Value]bool
	funcs   []*ssa.Function
	byName  map[string]*ssa.Function
	x86     *ssa.Global
	reqs    map[*ssa.Function]map[string]string // feature -> witness
	asmReqs map[*asmFunc]map[string]string
}

func (a *featAna) obl(name string, ok bool, where, detail string) {
	a.res.Obls = append(a.res.Obls, Obligation{Harness: a.res.Harness, Name: name, OK: ok, Where: where, Detail: detail})
}

// modFuncs lists all functions of the module (methods and closures included).
func (p *Program) modFuncs() []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] {
			return
		}
		if strings.Contains(p.prog.Fset.Position(f.Pos()).Filename, "zz_verif_") {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, g := range f.AnonFuncs {
			add(g)
		}
	}
	for path, q := range p.byPath {
		if !isModPkg(path) || strings.HasSuffix(path, "/verifrt") {
			continue
		}
		sp := p.prog.Package(q.Types)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := p.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						f := p.prog.MethodValue(ms.At(i))
						if f != nil && f.Pkg == sp && f.Synthetic == "" {
							add(f)
						}
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].String() < out[j].String() })
	return out
}

func (p *Program) pos(x token.Pos) string { return relPos(p.prog.Fset.Position(x)) }

// isFlags: the detected-feature structures this analysis trusts: the
// repository's own (checked against the architecture by C24's other
// obligations) and golang.org/x/sys/cpu's.
func (a *featAna) isFlags(v ssa.Value) bool {
	g, ok := v.(*ssa.Global)
	return ok && (g == a.x86 || g.Name() == "X86" && g.Pkg.Pkg.Path() == "golang.org/x/sys/cpu")
}

// facts gives the features that are certainly present when v is true.
func (a *featAna) facts(v ssa.Value) featSet {
	if a.vbusy[v] {
		return nil
	}
	a.vbusy[v] = true
	defer delete(a.vbusy, v)
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.String() == "false" {
			return nil
		}
		return featSet{}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return a.negFacts(v.X)
		}
		if v.Op != token.MUL {
			return featSet{}
		}
		switch x := v.X.(type) {
		case *ssa.FieldAddr:
			if a.isFlags(x.X) {
				n := x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
				return featSet{strings.TrimPrefix(n, "Has"): true}
			}
		case *ssa.Global:
			return a.globalFacts(x)
		}
	case *ssa.Field:
		if u, ok := v.X.(*ssa.UnOp); ok && u.Op == token.MUL && a.isFlags(u.X) {
			n := v.X.Type().Underlying().(*types.Struct).Field(v.Field).Name()
			return featSet{strings.TrimPrefix(n, "Has"): true}
		}
	case *ssa.Phi:
		var r featSet
		for i, e := range v.Edges {
			f := a.facts(e)
			if f != nil {
				f = f.clone().addAll(a.blockFacts(v.Block().Preds[i])).addAll(a.edgeFacts(v.Block().Preds[i], v.Block()))
			}
			r = meetFeat(r, f)
		}
		return r
	case *ssa.BinOp:
		if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil {
			t := c.Value.String() == "true"
			if v.Op == token.EQL && t || v.Op == token.NEQ && c.Value.String() == "false" {
				return a.facts(v.X)
			}
			if v.Op == token.NEQ && t || v.Op == token.EQL && c.Value.String() == "false" {
				return a.negFacts(v.X)
			}
		}
	case *ssa.Call:
		if g := v.Call.StaticCallee(); g != nil && len(g.Blocks) > 0 && g.Signature.Results().Len() == 1 {
			var r featSet
			for _, b := range g.Blocks {
				if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					f := a.facts(ret.Results[0])
					if f != nil {
						f = f.clone().addAll(a.blockFacts(b))
					}
					r = meetFeat(r, f)
				}
			}
			return r
		}
	case *ssa.Extract, *ssa.Parameter, *ssa.FreeVar, *ssa.Lookup:
		return featSet{}
	}
	return featSet{}
}

// negFacts gives the features certainly present when v is false.
func (a *featAna) negFacts(v ssa.Value) featSet {
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value != nil && v.Value.String() == "true" {
			return nil
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return a.facts(v.X)
		}
	case *ssa.BinOp:
		if c, ok := v.Y.(*ssa.Const); ok && c.Value != nil {
			t := c.Value.String() == "true"
			if v.Op == token.EQL && t || v.Op == token.NEQ && !t {
				return a.negFacts(v.X)
			}
			if v.Op == token.NEQ && t || v.Op == token.EQL && !t {
				return a.facts(v.X)
			}
		}
	case *ssa.Phi:
		var r featSet
		for i, e := range v.Edges {
			f := a.negFacts(e)
			if f != nil {
				f = f.clone().addAll(a.blockFacts(v.Block().Preds[i])).addAll(a.edgeFacts(v.Block().Preds[i], v.Block()))
			}
			r = meetFeat(r, f)
		}
		return r
	}
	return featSet{}
}

func (a *featAna) globalFacts(g *ssa.Global) featSet {
	if f, ok := a.gfacts[g]; ok {
		return f
	}
	if a.gbusy[g] {
		return featSet{}
	}
	a.gbusy[g] = true
	var r featSet
	for _, s := range a.stores[g] {
		f := a.facts(s.Val)
		if f != nil {
			f = f.clone().addAll(a.blockFacts(s.Block()))
		}
		r = meetFeat(r, f)
	}
	delete(a.gbusy, g)
	a.gfacts[g] = r
	return r
}

// edgeFacts: features implied by taking the branch from p to b.
func (a *featAna) edgeFacts(p, b *ssa.BasicBlock) featSet {
	iff, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If)
	if !ok || p.Succs[0] == p.Succs[1] {
		return featSet{}
	}
	var f featSet
	if p.Succs[0] == b {
		f = a.facts(iff.Cond)
	} else {
		f = a.negFacts(iff.Cond)
	}
	if f == nil {
		return featSet{"*": true}
	}
	return f
}

// blockFacts: features certainly present whenever b runs.
func (a *featAna) blockFacts(b *ssa.BasicBlock) featSet {
	r := featSet{}
	for c := b; c.Idom() != nil; c = c.Idom() {
		if len(c.Preds) == 1 {
			r.addAll(a.edgeFacts(c.Preds[0], c))
		}
	}
	return r
}

func flagsUntouched(op string) bool {
	for _, p := range []string{"MOV", "LEA", "PUSH", "POP", "NOP", "J", "PXOR", "PAND", "PSHUF", "NOT"} {
		if strings.HasPrefix(op, p) {
			return true
		}
	}
	return false
}

type featState struct {
	known featSet
	sym   string
	imm   uint64
}

// asmReq computes what an assembly routine needs at its entry.
func (a *featAna) asmReq(f *asmFunc, funcs map[string]*asmFunc, pkg *ssa.Package) map[string]string {
	if r, ok := a.asmReqs[f]; ok {
		return r
	}
	r := map[string]string{}
	a.asmReqs[f] = r
	in := make([]*featState, len(f.insts))
	if len(f.insts) == 0 {
		return r
	}
	work := []int{0}
	in[0] = &featState{known: featSet{}}
	for len(work) > 0 {
		i := work[len(work)-1]
		work = work[:len(work)-1]
		s := in[i]
		ins := f.insts[i]
		out := featState{known: s.known}
		if ins.op == "CMPB" && len(ins.args) == 2 && ins.args[0].kind == aSym && ins.args[1].kind == aImm {
			out.sym, out.imm = ins.args[0].sym, ins.args[1].imm
		} else if flagsUntouched(ins.op) {
			out.sym, out.imm = s.sym, s.imm
		}
		for _, t := range f.succs(i) {
			o := featState{known: out.known, sym: out.sym, imm: out.imm}
			if isBranch(ins.op) && !isUncond(ins.op) && s.sym != "" && len(f.succs(i)) == 2 {
				taken := t == ins.next && t != i+1
				var eq, ok bool
				switch ins.op {
				case "JEQ":
					eq, ok = taken, true
				case "JNE":
					eq, ok = !taken, true
				}
				// eq: the flag equals imm
				if ok && pkg != nil && (eq && s.imm == 1 || !eq && s.imm == 0) {
					if g, isG := pkg.Members[s.sym].(*ssa.Global); isG {
						fs := a.globalFacts(g)
						if fs == nil {
							fs = featSet{"*": true}
						}
						o.known = out.known.clone().addAll(fs)
					}
				}
			}
			if in[t] == nil {
				n := o
				in[t] = &n
				work = append(work, t)
				continue
			}
			m := meetFeat(in[t].known, o.known)
			changed := len(m) != len(in[t].known)
			n := featState{known: m, sym: in[t].sym, imm: in[t].imm}
			if n.sym != o.sym || n.imm != o.imm {
				if n.sym != "" {
					changed = true
				}
				n.sym, n.imm = "", 0
			}
			if changed {
				in[t] = &n
				work = append(work, t)
			}
		}
	}
	n := 0
	for i, s := range in {
		if s == nil {
			continue
		}
		ins := f.insts[i]
		feat, ok := instrFeature(f.arch, ins.op)
		if !ok {
			a.obl("opcode is classified", false, f.where(i), "unknown opcode "+ins.op)
			continue
		}
		if ins.op == "CALL" || (ins.op == "JMP" && len(ins.args) == 1 && ins.args[0].kind == aSym) {
			if len(ins.args) == 1 && ins.args[0].kind == aSym {
				nm := strings.TrimSuffix(ins.args[0].sym, "<>")
				if g := funcs[nm]; g != nil && g != f {
					for ft, w := range a.asmReq(g, funcs, pkg) {
						if !s.known[ft] && !s.known["*"] && r[ft] == "" {
							r[ft] = f.where(i) + " " + ins.text + " -> " + w
						}
					}
				}
			}
			continue
		}
		if feat == "" {
			continue
		}
		n++
		if !s.known[feat] && !s.known["*"] {
			if r[feat] == "" {
				r[feat] = f.where(i) + " " + ins.text
			}
		} else {
			a.res.Steps++
		}
	}
	if n > 0 {
		a.obl(fmt.Sprintf("%d optional instructions of %s are guarded or required of its callers", n, f.name), true, f.where(0), "")
	}
	return r
}

func anaFeatures(cfg Config) []*Result {
	t0 := time.Now()
	res := &Result{Harness: "features", Config: cfg.String(), Prims: map[string]int{}}
	p, err := load(cfg, "-", "./...", "mkem")
	if err != nil || len(p.errs) > 0 {
		res.Crash = fmt.Sprint("the source does not type-check: ", err, p.errs)
		return []*Result{res}
	}
	p.buildSSA()
	a := &featAna{p: p, res: res, gfacts: map[*ssa.Global]featSet{}, gbusy: map[*ssa.Global]bool{}, stores: map[*ssa.Global][]*ssa.Store{}, vbusy: map[ssa.Value]bool{},
		reqs: map[*ssa.Function]map[string]string{}, asmReqs: map[*asmFunc]map[string]string{}}
	a.asm, err = p.loadAsm()
	if err != nil {
		res.Crash = err.Error()
		return []*Result{res}
	}
	up := p.byPath[modulePath+"/utils"]
	if up == nil {
		res.Crash = "package utils is missing"
		return []*Result{res}
	}
	a.x86, _ = p.prog.Package(up.Types).Members["X86"].(*ssa.Global)
	if a.x86 == nil {
		res.Crash = "utils.X86 is missing"
		return []*Result{res}
	}
	a.funcs = p.modFuncs()
	exposed := map[*ssa.Global]string{}
	for _, f := range a.funcs {
		res.Funcs = append(res.Funcs, f.String())
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok {
						a.stores[g] = append(a.stores[g], s)
						if f.Name() != "init" && !strings.HasPrefix(f.Name(), "init#") && types.Identical(g.Type().(*types.Pointer).Elem(), types.Typ[types.Bool]) {
							exposed[g] = p.pos(s.Pos())
						}
					}
				}
			}
		}
	}
	// requirements of assembly routines
	type root struct {
		fn  *ssa.Function
		req map[string]string
	}
	for path, d := range a.asm {
		sp := p.prog.Package(p.byPath[path].Types)
		var names []string
		for n := range d.funcs {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			r := a.asmReq(d.funcs[n], d.funcs, sp)
			if fn, ok := sp.Members[n].(*ssa.Function); ok && len(fn.Blocks) == 0 {
				a.reqs[fn] = r
			}
		}
	}
	// propagate to callers
	for changed := true; changed; {
		changed = false
		for _, f := range a.funcs {
			for _, b := range f.Blocks {
				var bf featSet
				need := func(g *ssa.Function, pos token.Pos, how string) {
					q := a.reqs[g]
					if len(q) == 0 {
						return
					}
					if bf == nil {
						bf = a.blockFacts(b)
					}
					for ft, w := range q {
						if bf[ft] || bf["*"] {
							continue
						}
						if a.reqs[f] == nil {
							a.reqs[f] = map[string]string{}
						}
						if a.reqs[f][ft] == "" {
							a.reqs[f][ft] = fmt.Sprintf("%s %s %s -> %s", p.pos(pos), how, g.Name(), w)
							changed = true
						}
					}
				}
				for _, ins := range b.Instrs {
					if c, ok := ins.(ssa.CallInstruction); ok {
						if g := c.Common().StaticCallee(); g != nil {
							need(g, ins.Pos(), "calls")
						}
					}
					if mi, ok := ins.(*ssa.MakeInterface); ok {
						ms := p.prog.MethodSets.MethodSet(mi.X.Type())
						for i := 0; i < ms.Len(); i++ {
							if m := p.prog.MethodValue(ms.At(i)); m != nil {
								if m.Synthetic != "" && len(a.reqs[m]) == 0 {
									// wrapper of an embedded or promoted method
									for _, wb := range m.Blocks {
										for _, wi := range wb.Instrs {
											if c, ok := wi.(ssa.CallInstruction); ok {
												if g := c.Common().StaticCallee(); g != nil && len(a.reqs[g]) > 0 {
													need(g, mi.Pos(), "makes available")
												}
											}
										}
									}
								}
								need(m, mi.Pos(), "makes available")
							}
						}
					}
					for _, op := range ins.Operands(nil) {
						if op == nil || *op == nil {
							continue
						}
						if g, ok := (*op).(*ssa.Function); ok {
							if c, isC := ins.(ssa.CallInstruction); isC && c.Common().Value == ssa.Value(g) {
								continue
							}
							need(g, ins.Pos(), "refers to")
						}
						if mc, ok := (*op).(*ssa.MakeClosure); ok {
							if g, ok := mc.Fn.(*ssa.Function); ok {
								need(g, ins.Pos(), "refers to")
							}
						}
					}
				}
			}
		}
	}
	// entry points must need nothing
	for _, f := range a.funcs {
		if !isEntry(f) {
			continue
		}
		ok := true
		for _, ft := range keysS(a.reqs[f]) {
			ok = false
			a.obl(fmt.Sprintf("%s needs %s only after detection", f.String(), ft), false, p.pos(f.Pos()), "reaches a "+ft+" instruction without a test of its flag: "+a.reqs[f][ft])
		}
		if ok {
			a.obl(f.String()+" reaches no unguarded optional instruction", true, p.pos(f.Pos()), "")
		}
	}
	for g, where := range exposed {
		if fs := a.globalFacts(g); fs == nil || len(fs) > 0 {
			a.obl("feature flag "+g.Name()+" is set only during initialisation", false, where, "written after initialisation")
		}
	}
	// flags are not written elsewhere: X86 only in package utils
	for _, f := range a.funcs {
		if f.Pkg == a.x86.Pkg {
			continue
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if g := rootGlobal(s.Addr); g != nil && a.isFlags(g) {
					a.obl("utils.X86 is written only by its own package", false, p.pos(s.Pos()), f.String()+" writes a detected feature flag")
				}
			}
		}
	}
	a.checkCpuid()
	res.CallSites = len(res.Obls)
	res.WallS = time.Since(t0).Seconds()
	return []*Result{res}
}

func rootGlobal(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

func keysS(m map[string]string) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

// isEntry: functions that code outside the module, or the runtime, can call.
func isEntry(f *ssa.Function) bool {
	if f.Parent() != nil || f.Pkg == nil {
		return false
	}
	n := f.Name()
	if n == "init" || strings.HasPrefix(n, "init#") || n == "main" {
		return true
	}
	if strings.Contains(f.Pkg.Pkg.Path(), "/internal/") || strings.HasSuffix(f.Pkg.Pkg.Path(), "/internal") {
		return false
	}
	if !token.IsExported(n) {
		return false
	}
	if r := f.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if nt, ok := t.(*types.Named); ok {
			return nt.Obj().Exported()
		}
	}
	return true
}

// checkCpuid: the assembly routine hands over the registers of the leaf it was asked for.
func (a *featAna) checkCpuid() {
	d := a.asm[modulePath+"/utils"]
	if d == nil {
		return
	}
	for _, f := range d.funcs {
		idx := -1
		for i, in := range f.insts {
			if in.op == "CPUID" {
				idx = i
			}
		}
		if idx < 0 {
			continue
		}
		regs := map[string]string{}
		args := map[string]string{}
		bad := ""
		for i, in := range f.insts {
			switch {
			case in.op == "CPUID":
				k := regs["AX"] + "," + regs["CX"]
				for _, r := range []string{"AX", "BX", "CX", "DX"} {
					regs[r] = "cpuid(" + k + ")." + r
				}
			case (in.op == "MOVL" || in.op == "MOVQ") && len(in.args) == 2:
				var v string
				switch s := in.args[0]; s.kind {
				case aArg:
					v = fmt.Sprint("arg", s.off-8)
				case aReg:
					v = regs[s.reg]
				case aImm:
					v = fmt.Sprint(s.imm)
				default:
					bad = f.where(i) + " " + in.text
				}
				switch t := in.args[1]; t.kind {
				case aReg:
					regs[t.reg] = v
				case aArg:
					if in.op == "MOVQ" {
						bad = f.where(i) + " " + in.text
					}
					args[fmt.Sprint(t.off-8)] = v
				default:
					bad = f.where(i) + " " + in.text
				}
			case in.op == "XORL" && len(in.args) == 2 && in.args[0].text == in.args[1].text:
				regs[in.args[1].reg] = "0"
			case in.op == "RET" || in.op == "NOP":
			default:
				bad = f.where(i) + " " + in.text
			}
		}
		a.obl("cpuid routine is straight-line register transfer", bad == "", f.where(idx), "not decided: "+bad)
		for off, r := range map[string]string{"8": "AX", "12": "BX", "16": "CX", "20": "DX"} {
			want := "cpuid(arg0,arg4)." + r
			a.obl("cpuid returns "+r+" of the requested leaf and subleaf at offset "+off, args[off] == want, f.where(idx), "returns "+args[off]+" instead of "+want)
		}
	}
}
