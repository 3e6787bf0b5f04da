package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

// C25: every supported configuration type-checks, every primitive has exactly
// one definition, and assembly agrees with its Go declaration.

type argComp struct {
	off, size int64
	name      string
}

// flatten lists the scalar components of a type as the assembler sees them.
func flattenArgs(sz types.Sizes, t types.Type, off int64, name string, out *[]argComp) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		w := sz.Sizeof(types.Typ[types.Uintptr])
		*out = append(*out, argComp{off, w, name + "_base"}, argComp{off + w, w, name + "_len"}, argComp{off + 2*w, w, name + "_cap"})
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			w := sz.Sizeof(types.Typ[types.Uintptr])
			*out = append(*out, argComp{off, w, name + "_base"}, argComp{off + w, w, name + "_len"})
			return
		}
		*out = append(*out, argComp{off, sz.Sizeof(t), name})
	case *types.Interface:
		w := sz.Sizeof(types.Typ[types.Uintptr])
		*out = append(*out, argComp{off, w, name + "_type"}, argComp{off + w, w, name + "_data"})
	case *types.Struct:
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := sz.Offsetsof(fs)
		for i, f := range fs {
			flattenArgs(sz, f.Type(), off+offs[i], name+"_"+f.Name(), out)
		}
	case *types.Array:
		e := sz.Sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			flattenArgs(sz, u.Elem(), off+i*e, fmt.Sprintf("%s_%d", name, i), out)
		}
	default:
		*out = append(*out, argComp{off, sz.Sizeof(t), name})
	}
}

// argLayout gives the ABI0 argument area of a function.
func argLayout(sz types.Sizes, sig *types.Signature) (comps []argComp, results []argComp, size int64) {
	align := func(n, a int64) int64 { return (n + a - 1) / a * a }
	w := sz.Sizeof(types.Typ[types.Uintptr])
	off := int64(0)
	for i := 0; i < sig.Params().Len(); i++ {
		v := sig.Params().At(i)
		off = align(off, sz.Alignof(v.Type()))
		flattenArgs(sz, v.Type(), off, v.Name(), &comps)
		off += sz.Sizeof(v.Type())
	}
	off = align(off, w)
	if sig.Results().Len() == 0 {
		// the argument size may be declared without the final padding
		n := int64(0)
		for _, c := range comps {
			n = max(n, c.off+c.size)
		}
		return comps, nil, n
	}
	for i := 0; i < sig.Results().Len(); i++ {
		v := sig.Results().At(i)
		off = align(off, sz.Alignof(v.Type()))
		n := v.Name()
		if n == "" || n == "_" {
			n = "ret"
			if i > 0 {
				n = fmt.Sprintf("ret%d", i)
			}
		}
		flattenArgs(sz, v.Type(), off, n, &results)
		off += sz.Sizeof(v.Type())
	}
	n := int64(0)
	for _, c := range results {
		n = max(n, c.off+c.size)
	}
	return comps, results, n
}

// accessWidth of a data movement through an argument slot; 0 when unknown.
func accessWidth(arch, op string) int64 {
	if arch == "arm64" {
		switch strings.TrimSuffix(strings.TrimSuffix(op, ".P"), ".W") {
		case "MOVD", "MOV":
			return 8
		case "MOVW", "MOVWU":
			return 4
		case "MOVH", "MOVHU":
			return 2
		case "MOVB", "MOVBU":
			return 1
		case "LDP", "STP":
			return 16
		}
		return 0
	}
	switch op {
	case "MOVQ", "LEAQ", "ADDQ", "SUBQ", "CMPQ", "XORQ", "ANDQ", "ORQ", "MULQ", "ADCQ", "SBBQ":
		return 8
	case "MOVL", "ADDL", "CMPL", "XORL", "MOVLQZX", "MOVLQSX":
		return 4
	case "MOVW", "MOVWLZX", "MOVWQZX":
		return 2
	case "MOVB", "MOVBLZX", "MOVBQZX", "MOVBLSX", "MOVBQSX", "CMPB":
		return 1
	case "MOVOU", "MOVO", "MOVUPS", "MOVAPS":
		return 16
	}
	return 0
}

func anaMatrix(cfg Config) []*Result {
	t0 := time.Now()
	res := &Result{Harness: "buildmatrix", Config: cfg.String(), Prims: map[string]int{}}
	defer func() { res.WallS = time.Since(t0).Seconds() }()
	obl := func(name string, ok bool, where, detail string) {
		res.Obls = append(res.Obls, Obligation{Harness: res.Harness, Name: name, OK: ok, Where: where, Detail: detail})
	}
	p, err := load(cfg, "-", "./...", "mkem")
	if err != nil {
		res.Crash = err.Error()
		return []*Result{res}
	}
	bad := map[string][]string{}
	for _, e := range p.errs {
		pk, _, _ := strings.Cut(e, ": ")
		bad[pk] = append(bad[pk], e)
	}
	var paths []string
	for path := range p.byPath {
		if isModPkg(path) && !strings.HasSuffix(path, "/verifrt") {
			paths = append(paths, path)
		}
	}
	sort.Strings(paths)
	for _, path := range paths {
		obl("package "+path+" type-checks", len(bad[path]) == 0, path, strings.Join(bad[path], "; "))
	}
	// the same packages exist in every configuration
	for _, want := range []string{"utils", "drbg", "drbg/internal/aes", "hash/sha3", "hash/sm3", "dh/csidh", "dh/sidh", "dh/sidh/common", "dh/sidh/internal/p434", "dh/sidh/internal/p503", "dh/sidh/internal/p751"} {
		q := p.byPath[modulePath+"/"+want]
		obl("package "+want+" is part of the build", q != nil && len(q.Syntax) > 0, want, "no Go file of the package is selected")
	}
	q := p.byPath["mkem"]
	obl("package kem/mkem is part of the build", q != nil && len(q.Syntax) > 0, "kem/mkem", "no Go file of the package is selected")
	if len(p.errs) > 0 {
		return []*Result{res}
	}
	asm := map[string]*asmData{}
	count := map[string]map[string]int{}
	for path, fs := range p.asmFiles() {
		asm[path] = &asmData{funcs: map[string]*asmFunc{}, data: map[string][]byte{}}
		count[path] = map[string]int{}
		for _, f := range fs {
			d, err := assemble(cfg.Arch, path, f)
			if err != nil {
				obl("assembly file "+relPath(f)+" assembles", false, relPath(f), err.Error())
				continue
			}
			obl("assembly file "+relPath(f)+" assembles", true, relPath(f), "")
			for k, v := range d.funcs {
				asm[path].funcs[k] = v
				count[path][k]++
			}
			for k, v := range d.data {
				asm[path].data[k] = v
			}
		}
	}
	sz := types.SizesFor("gc", cfg.Arch)
	for _, path := range paths {
		q := p.byPath[path]
		decls := map[string]*ast.FuncDecl{}
		bodied := map[string]bool{}
		for _, f := range q.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				if fd.Body == nil {
					decls[fd.Name.Name] = fd
				} else {
					bodied[fd.Name.Name] = true
				}
			}
		}
		ad := asm[path]
		for _, n := range sortedKeys(decls) {
			fd := decls[n]
			where := relPos(q.Fset.Position(fd.Pos()))
			c := 0
			if ad != nil {
				c = count[path][n]
			}
			obl("declaration "+pkgShort(path)+"."+n+" has exactly one assembly definition", c == 1, where, fmt.Sprintf("%d definitions in this configuration", c))
			if c != 1 {
				continue
			}
			f := ad.funcs[n]
			sig := q.TypesInfo.Defs[fd.Name].Type().(*types.Signature)
			checkLayout(f, sz, sig, obl)
		}
		if ad == nil {
			continue
		}
		for _, n := range sortedKeys(ad.funcs) {
			f := ad.funcs[n]
			refs := asmCallers(ad, n)
			_, declared := decls[n]
			obl("assembly routine "+pkgShort(path)+"."+n+" is declared or called", declared || refs > 0, f.where(0), "no Go declaration and no caller")
			obl("assembly routine "+pkgShort(path)+"."+n+" has no second Go definition", !bodied[n], f.where(0), "Go also defines a body for "+n)
			checkSyms(f, ad, q, obl)
		}
	}
	checkSiblings(p, obl)
	return []*Result{res}
}

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

func pkgShort(path string) string { return strings.TrimPrefix(path, modulePath+"/") }

func asmCallers(ad *asmData, n string) int {
	c := 0
	for _, f := range ad.funcs {
		for _, in := range f.insts {
			for _, a := range in.args {
				if (a.kind == aSym || a.kind == aSymAddr) && strings.TrimSuffix(a.sym, "<>") == n {
					c++
				}
			}
		}
	}
	return c
}

// fpBias: offset the listing adds to FP-relative operands.
func (f *asmFunc) fpBias() int64 {
	if f.arch != "amd64" {
		if f.frame > 0 && !strings.Contains(f.flags, "NOFRAME") {
			return int64(f.frame) + 8
		}
		return 0
	}
	b := int64(8)
	if f.frame > 0 {
		b += int64(f.frame)
	}
	return b
}

func checkLayout(f *asmFunc, sz types.Sizes, sig *types.Signature, obl func(string, bool, string, string)) {
	comps, results, size := argLayout(sz, sig)
	w := sz.Sizeof(types.Typ[types.Uintptr])
	name := f.String()
	if f.argSize >= 0 {
		ok := int64(f.argSize) == size || int64(f.argSize) == (size+w-1)/w*w
		obl(name+" declares its argument size", ok, f.where(0), fmt.Sprintf("declared $%d-%d, the Go declaration needs %d", f.frame, f.argSize, size))
	}
	byName := map[string]argComp{}
	all := append(append([]argComp{}, comps...), results...)
	for _, c := range all {
		byName[c.name] = c
	}
	written := map[int64]bool{}
	n := 0
	for i, in := range f.insts {
		if i < f.prologue {
			continue
		}
		for k, a := range in.args {
			if a.kind != aArg {
				continue
			}
			n++
			off := a.off - f.fpBias()
			if c, ok := byName[a.name]; ok && c.off != off {
				obl(name+" reads "+a.name+" where Go puts it", false, f.where(i), fmt.Sprintf("%s is at offset %d, the assembly uses %d: %s", a.name, c.off, off, in.text))
				continue
			}
			var hit *argComp
			for j := range all {
				if all[j].off == off {
					hit = &all[j]
				}
			}
			if hit == nil {
				obl(name+" uses only argument slots", false, f.where(i), fmt.Sprintf("offset %d of the argument area is not an argument: %s", off, in.text))
				continue
			}
			aw := accessWidth(f.arch, in.op)
			if aw == 0 {
				obl(name+" accesses "+hit.name+" with its width", false, f.where(i), "not decided: width of "+in.text)
				continue
			}
			okw := aw == hit.size
			if !okw && aw > hit.size {
				// a wide access may span several slots of the same size exactly
				end := off + aw
				for _, c := range all {
					if c.off+c.size == end {
						okw = true
					}
				}
			}
			obl(name+" accesses "+hit.name+" with its width", okw, f.where(i), fmt.Sprintf("%s is %d bytes wide: %s", hit.name, hit.size, in.text))
			if k == len(in.args)-1 && !strings.HasPrefix(in.op, "CMP") && off >= resultStart(results) {
				written[off] = true
			}
		}
	}
	for _, r := range results {
		obl(name+" writes its result "+r.name, written[r.off], f.where(0), "no instruction stores to the result slot")
	}
	obl(fmt.Sprintf("%s uses %d argument references", name, n), true, f.where(0), "")
}

func resultStart(r []argComp) int64 {
	if len(r) == 0 {
		return 1 << 40
	}
	return r[0].off
}

// checkSyms: every symbol an assembly routine refers to exists, and accesses stay inside it.
func checkSyms(f *asmFunc, ad *asmData, q *packages.Package, obl func(string, bool, string, string)) {
	sz := types.SizesFor("gc", f.arch)
	seen := map[string]bool{}
	for i, in := range f.insts {
		for _, a := range in.args {
			if a.kind != aSym && a.kind != aSymAddr {
				continue
			}
			n := strings.TrimSuffix(a.sym, "<>")
			key := fmt.Sprint(n, a.off, in.op)
			if seen[key] {
				continue
			}
			seen[key] = true
			if strings.HasPrefix(n, "runtime.") {
				continue
			}
			if ad.funcs[n] != nil || ad.data[n] != nil {
				obl(f.String()+" refers to "+n, true, f.where(i), "")
				continue
			}
			o := q.Types.Scope().Lookup(n)
			v, isVar := o.(*types.Var)
			if !isVar {
				obl(f.String()+" refers to "+n, false, f.where(i), "no such variable in the package")
				continue
			}
			w := accessWidth(f.arch, in.op)
			if w == 0 {
				w = 8
			}
			if strings.HasSuffix(in.op, "Q") || strings.HasSuffix(in.op, "XQ") {
				w = 8
			}
			obl(f.String()+" stays inside "+n, a.off >= 0 && a.off+w <= sz.Sizeof(v.Type()), f.where(i), fmt.Sprintf("%d bytes at offset %d of a %d-byte variable: %s", w, a.off, sz.Sizeof(v.Type()), in.text))
		}
	}
}

// checkSiblings: the three SIDH primes offer the same operations to the
// dispatching code, with the same types up to their own names.
func checkSiblings(p *Program, obl func(string, bool, string, string)) {
	sigs := map[string]map[string]string{}
	for _, pr := range primes {
		q := p.byPath[modulePath+"/dh/sidh/internal/"+pr]
		if q == nil {
			obl("package "+pr+" exists", false, pr, "missing")
			return
		}
		m := map[string]string{}
		qual := func(x *types.Package) string {
			if x == q.Types {
				return ""
			}
			return filepath.Base(x.Path())
		}
		norm := strings.NewReplacer(strings.ToUpper(pr), "P", pr, "p")
		sc := q.Types.Scope()
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			prim := false
			for _, pf := range []string{"add", "sub", "mul", "adl", "sul", "rdc", "mod", "cswap"} {
				prim = prim || n == pf+strings.ToUpper(pr)
			}
			if fn, ok := o.(*types.Func); ok && (fn.Exported() || prim) {
				m[norm.Replace(n)] = norm.Replace(types.TypeString(fn.Type(), qual))
			}
		}
		sigs[pr] = m
	}
	a := sigs[primes[0]]
	for _, pr := range primes[1:] {
		for _, n := range sortedKeys(a) {
			obl("sibling "+pr+" offers "+n+" as "+primes[0]+" does", stripNames(sigs[pr][n]) == stripNames(a[n]), pr, fmt.Sprintf("%q against %q", sigs[pr][n], a[n]))
		}
		for _, n := range sortedKeys(sigs[pr]) {
			if _, ok := a[n]; !ok {
				obl("sibling "+primes[0]+" offers "+n+" as "+pr+" does", false, primes[0], "missing")
			}
		}
	}
}

// stripNames drops parameter names from a printed signature.
func stripNames(s string) string {
	var out []string
	for _, part := range strings.FieldsFunc(s, func(r rune) bool { return r == ',' || r == '(' || r == ')' }) {
		part = strings.TrimSpace(part)
		if i := strings.LastIndex(part, " "); i >= 0 {
			part = part[i+1:]
		}
		out = append(out, part)
	}
	return strings.Join(out, ",")
}

func init() {
	analyses["buildmatrix"] = anaMatrix
	propAnalyses["C25"] = []string{"buildmatrix"}
}
