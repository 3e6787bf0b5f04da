package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C22, assembly part: in the routines reachable from SIDH and SIKE every value
// loaded through an argument pointer, and every non-pointer argument, is
// secret. No conditional branch, memory address or variable-latency
// instruction may depend on one.

func flagSetter(op string) bool {
	for _, p := range []string{"ADD", "SUB", "CMP", "TEST", "AND", "OR", "XOR", "NEG"} {
		if strings.HasPrefix(op, p) {
			return true
		}
	}
	return false
}

func readsFlags(op string) bool {
	for _, p := range []string{"ADC", "SBB", "ADOX", "CMOV", "SET", "CSEL", "CSET", "CSINC", "CSINV", "CSNEG", "CINC", "CINV", "NGC", "SBC", "RCL", "RCR", "CCMP"} {
		if strings.HasPrefix(op, p) {
			return true
		}
	}
	return false
}

func variableLatency(arch, op string) bool {
	for _, p := range []string{"DIV", "IDIV", "UDIV", "SDIV", "REM", "UREM", "REP", "FDIV", "FSQRT", "SQRT"} {
		if strings.HasPrefix(op, p) {
			return true
		}
	}
	return false
}

const flagsReg = "\x00flags"

// asmCT analyses one routine; entry gives secret registers at entry.
func asmCT(f *asmFunc, ad *asmData, secretArg func(off int64) bool, entry map[string]bool, seen map[string]bool, obl func(name string, ok bool, where, detail string)) map[string]bool {
	type st = map[string]bool
	in := make([]st, len(f.insts))
	clone := func(s st) st {
		n := st{}
		for k, v := range s {
			if v {
				n[k] = true
			}
		}
		return n
	}
	slots := map[int64]bool{}
	exit := st{}
	sec := func(o asmOp, s st) bool { // secrecy of a read operand
		switch o.kind {
		case aReg, aShift:
			return s[o.reg]
		case aPair:
			return s[o.reg] || s[o.reg2]
		case aMem:
			if o.reg == "SP" || o.reg == "RSP" {
				return slots[o.off] || o.index != ""
			}
			return true
		case aArg:
			return secretArg(o.off - f.fpBias())
		case aOther:
			return true
		}
		return false
	}
	for changed := true; changed; {
		changed = false
		work := []int{0}
		if in[0] == nil {
			in[0] = clone(entry)
		}
		visited := make([]bool, len(f.insts))
		for len(work) > 0 {
			i := work[len(work)-1]
			work = work[:len(work)-1]
			visited[i] = true
			ins := f.insts[i]
			out := clone(in[i])
			n := len(ins.args)
			switch {
			case ins.op == "RET":
				for k, v := range out {
					exit[k] = exit[k] || v
				}
				continue
			case isBranch(ins.op) && !(ins.op == "CALL"):
			case ins.op == "CALL":
				if n == 1 && ins.args[0].kind == aSym {
					nm := strings.TrimSuffix(ins.args[0].sym, "<>")
					if g := ad.funcs[nm]; g != nil && g != f && !seen[nm] {
						seen[nm] = true
						ex := asmCT(g, ad, secretArg, out, seen, obl)
						delete(seen, nm)
						for k, v := range ex {
							out[k] = out[k] || v
						}
					}
				}
			case n == 0:
			default:
				src := false
				for _, o := range ins.args[:n-1] {
					src = src || sec(o, in[i])
				}
				if readsFlags(ins.op) {
					src = src || in[i][flagsReg]
				}
				last := ins.args[n-1]
				mov := strings.HasPrefix(ins.op, "MOV") || strings.HasPrefix(ins.op, "LEA") || strings.HasPrefix(ins.op, "LD") || strings.HasPrefix(ins.op, "ST") || strings.HasPrefix(ins.op, "VLD") || strings.HasPrefix(ins.op, "VST") || strings.HasPrefix(ins.op, "FMOV")
				if strings.HasPrefix(ins.op, "LEA") {
					src = false
					for _, o := range ins.args[:n-1] {
						if o.kind == aMem {
							src = src || in[i][o.reg] || in[i][o.index]
						}
					}
				}
				if f.arch == "amd64" && n == 1 && (strings.HasPrefix(ins.op, "MUL") || strings.HasPrefix(ins.op, "IMUL")) {
					v := sec(last, in[i]) || in[i]["AX"]
					out["AX"], out["DX"] = v, v
					out[flagsReg] = out[flagsReg] || v
					break
				}
				if strings.HasPrefix(ins.op, "MULX") && n == 3 {
					v := src || in[i]["DX"]
					out[ins.args[1].reg], out[last.reg] = v, v
					break
				}
				twoAddr := !mov && (n <= 2)
				v := src
				if twoAddr {
					v = v || sec(last, in[i])
				}
				if (strings.HasPrefix(ins.op, "XOR") || strings.HasPrefix(ins.op, "SUB") || strings.HasPrefix(ins.op, "PXOR") || strings.HasPrefix(ins.op, "EOR")) && n == 2 && ins.args[0].kind == aReg && last.kind == aReg && ins.args[0].reg == last.reg {
					v = false
				}
				if ins.op == "XCHGQ" && n == 2 && ins.args[0].kind == aReg && last.kind == aReg {
					out[ins.args[0].reg], out[last.reg] = in[i][last.reg], in[i][ins.args[0].reg]
					break
				}
				if !mov {
					if flagSetter(ins.op) {
						out[flagsReg] = v || n >= 2 && sec(last, in[i]) && strings.HasPrefix(ins.op, "CMP")
					} else {
						out[flagsReg] = out[flagsReg] || v
					}
				}
				cmp := strings.HasPrefix(ins.op, "CMP") || strings.HasPrefix(ins.op, "TEST") || ins.op == "CMN" || ins.op == "TST"
				if cmp {
					break
				}
				switch last.kind {
				case aReg:
					out[last.reg] = v
				case aPair:
					out[last.reg], out[last.reg2] = v, v
				case aMem:
					if (last.reg == "SP" || last.reg == "RSP") && v && !slots[last.off] {
						slots[last.off] = true
						changed = true
					}
					if (ins.op == "STP" || strings.HasPrefix(ins.op, "MOVO") || strings.HasPrefix(ins.op, "MOVUPS")) && (last.reg == "SP" || last.reg == "RSP") && v && !slots[last.off+8] {
						slots[last.off+8] = true
						changed = true
					}
				}
			}
			for _, s := range f.succs(i) {
				if in[s] == nil {
					in[s] = clone(out)
					work = append(work, s)
					continue
				}
				ch := false
				for k, v := range out {
					if v && !in[s][k] {
						in[s][k] = true
						ch = true
					}
				}
				if ch || !visited[s] {
					work = append(work, s)
				}
			}
		}
	}
	name := f.String()
	nb, na := 0, 0
	for i, s := range in {
		if s == nil || i < f.prologue {
			continue
		}
		ins := f.insts[i]
		if isBranch(ins.op) && !isUncond(ins.op) && ins.op != "CALL" && ins.op != "RET" {
			nb++
			bad := s[flagsReg]
			if strings.HasPrefix(ins.op, "CB") || strings.HasPrefix(ins.op, "TB") {
				bad = false
				for _, o := range ins.args {
					if o.kind == aReg && s[o.reg] {
						bad = true
					}
				}
			}
			obl("branch in "+name+" does not depend on a secret", !bad, f.where(i), "secret condition: "+ins.text)
		}
		if (ins.op == "CALL" || isUncond(ins.op)) && len(ins.args) == 1 && ins.args[0].kind == aReg {
			obl("jump target in "+name+" is public", !s[ins.args[0].reg], f.where(i), ins.text)
		}
		for _, o := range ins.args {
			if o.kind == aMem {
				na++
				if s[o.reg] || o.index != "" && s[o.index] {
					if !strings.HasPrefix(ins.op, "LEA") {
						obl("address in "+name+" does not depend on a secret", false, f.where(i), "secret address: "+ins.text)
					}
				}
			}
		}
		if variableLatency(f.arch, ins.op) {
			bad := false
			for _, o := range ins.args {
				bad = bad || sec(o, s)
			}
			bad = bad || s["AX"] || s["DX"]
			obl("division in "+name+" does not depend on a secret", !bad, f.where(i), ins.text)
		}
	}
	obl(fmt.Sprintf("%s: %d branches, %d memory operands", name, nb, na), true, f.where(0), "")
	return exit
}

func anaAsmCT(cfg Config) []*Result {
	t0 := time.Now()
	res := &Result{Harness: "asmct", Config: cfg.String(), Prims: map[string]int{}}
	defer func() { res.WallS = time.Since(t0).Seconds() }()
	p, err := load(cfg, "-", "./...", "mkem")
	if err != nil || len(p.errs) > 0 {
		res.Crash = fmt.Sprint("the source does not type-check: ", err, p.errs)
		return []*Result{res}
	}
	p.buildSSA()
	asm, err := p.loadAsm()
	if err != nil {
		res.Crash = err.Error()
		return []*Result{res}
	}
	dedup := map[string]bool{}
	obl := func(name string, ok bool, where, detail string) {
		k := name + where
		if dedup[k] && ok {
			return
		}
		dedup[k] = true
		res.Obls = append(res.Obls, Obligation{Harness: res.Harness, Name: name, OK: ok, Where: where, Detail: detail})
	}
	n := 0
	var paths []string
	for path := range asm {
		if strings.Contains(path, "/dh/sidh/") || strings.HasSuffix(path, "/hash/sha3") {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		ad := asm[path]
		sp := p.prog.Package(p.byPath[path].Types)
		for _, nm := range sortedKeys(ad.funcs) {
			f := ad.funcs[nm]
			fn, _ := sp.Members[nm].(*ssa.Function)
			if fn == nil {
				continue // a helper, analysed with its callers
			}
			sz := sizesFor(f.arch)
			idx := asmArgIndex(p, fn, f.arch)
			secretArg := func(off int64) bool {
				i, ok := idx[off]
				if !ok {
					return true
				}
				_, ptr := fn.Params[i].Type().Underlying().(*types.Pointer)
				return !ptr
			}
			_ = sz
			asmCT(f, ad, secretArg, map[string]bool{}, map[string]bool{nm: true}, obl)
			n++
			res.Steps += len(f.insts)
			res.Funcs = append(res.Funcs, path+"."+nm+" (assembly)")
		}
	}
	obl(fmt.Sprintf("%d assembly routines analysed", n), true, "", "")
	return []*Result{res}
}
