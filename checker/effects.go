package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// C21: which memory an operation may write. Bottom-up summaries over SSA: for
// every function the set of roots (parameters, memory reachable from
// parameters, package-level variables) its stores can reach, with a field-based
// treatment of pointers kept in memory. Assembly routines are summarised from
// the assembler listing.

type rootKind int

const (
	rParam  rootKind = iota // the object parameter idx points to
	rDeref                  // an object reached through memory of parameter idx
	rFree                   // the object captured variable idx points to
	rGlobal                 // memory of, or reached from, a package-level variable
	rAlloc                  // allocated here
	rFresh                  // allocated in a callee
	rExt                    // memory of the caller's environment (reader, etc.)
)

type root struct {
	kind rootKind
	idx  int
	key  string // last field loaded (rDeref), first field selected (rParam)
	glob *ssa.Global
	site ssa.Value
}

func (r root) String() string {
	switch r.kind {
	case rParam:
		return fmt.Sprintf("param%d", r.idx)
	case rDeref:
		return fmt.Sprintf("param%d->%s", r.idx, r.key)
	case rFree:
		return fmt.Sprintf("free%d", r.idx)
	case rGlobal:
		return r.glob.String()
	case rAlloc:
		return "local"
	case rFresh:
		return "fresh"
	}
	return "environment"
}

type rootSet map[root]bool

func (s rootSet) addAll(t rootSet) bool {
	c := false
	for r := range t {
		if !s[r] {
			s[r] = true
			c = true
		}
	}
	return c
}

type effSummary struct {
	writes map[root]string            // -> witness
	ret    []rootSet                  // per result
	stored map[string]map[root]string // pointers stored under a field key -> witness
	into   map[[2]any]string          // (object root, value root): value's memory becomes reachable from object
}

func newEff(n int) *effSummary {
	e := &effSummary{writes: map[root]string{}, stored: map[string]map[root]string{}, into: map[[2]any]string{}}
	for i := 0; i < n; i++ {
		e.ret = append(e.ret, rootSet{})
	}
	return e
}

type effAna struct {
	p       *Program
	asm     map[string]*asmData
	sum     map[*ssa.Function]*effSummary
	order   []*ssa.Function
	globIn  map[string]map[*ssa.Global]bool // globals whose memory is stored under a field key
	vals    map[*ssa.Function]map[ssa.Value]rootSet
	cells   map[*ssa.Function]map[ssa.Value]map[string]rootSet // contents of local allocations
	chaC    map[string][]*ssa.Function
	modT    []types.Type
	addrT   []*ssa.Function
	changed bool
	unknown map[string]string
	callees map[*ssa.Function]map[*ssa.Function]bool
	asmSum  map[string]*asmEffect
	notes   map[string]bool
	funcVar map[*ssa.Global][]*ssa.Function // function variables with known contents
}

func hasPtr(t types.Type) bool { return hasPtr1(t, 0) }
func hasPtr1(t types.Type, d int) bool {
	if d > 12 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasPtr1(u.Field(i).Type(), d+1) {
				return true
			}
		}
		return false
	case *types.Array:
		return hasPtr1(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if hasPtr1(u.At(i).Type(), d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// fieldKeys of a value of type t kept in memory under key k: one per pointer it holds.
func fieldKeys(t types.Type, k string) []string {
	var out []string
	var rec func(t types.Type, k string, d int)
	rec = func(t types.Type, k string, d int) {
		if d > 12 || !hasPtr(t) {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				rec(u.Field(i).Type(), fieldKey(t, i), d+1)
			}
		case *types.Array:
			rec(u.Elem(), k, d+1)
		default:
			out = append(out, k)
		}
	}
	rec(t, k, 0)
	return out
}

func fieldKey(st types.Type, i int) string {
	u := st.Underlying().(*types.Struct)
	return types.TypeString(st, func(p *types.Package) string { return p.Path() }) + "." + u.Field(i).Name()
}

// addrKey names the memory cell an address denotes.
func addrKey(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return fieldKey(x.X.Type().Underlying().(*types.Pointer).Elem(), x.Field)
	case *ssa.IndexAddr:
		if _, ok := x.X.Type().Underlying().(*types.Pointer); ok {
			return addrKey(x.X)
		}
		return "elem " + x.Type().String()
	case *ssa.Global:
		return "global " + x.String()
	}
	return "cell " + v.Type().String()
}

func (a *effAna) addVal(f *ssa.Function, v ssa.Value, s rootSet) {
	if len(s) == 0 {
		return
	}
	m := a.vals[f]
	if m[v] == nil {
		m[v] = rootSet{}
	}
	if m[v].addAll(s) {
		a.changed = true
	}
}

func (a *effAna) val(f *ssa.Function, v ssa.Value) rootSet {
	switch x := v.(type) {
	case *ssa.Const, *ssa.Builtin, *ssa.Function:
		return nil
	case *ssa.Global:
		return rootSet{root{kind: rGlobal, glob: x}: true}
	case *ssa.Parameter:
		if !hasPtr(x.Type()) {
			return nil
		}
		for i, p := range f.Params {
			if p == x {
				return rootSet{root{kind: rParam, idx: i}: true}
			}
		}
	case *ssa.FreeVar:
		for i, p := range f.FreeVars {
			if p == x {
				return rootSet{root{kind: rFree, idx: i}: true}
			}
		}
	}
	return a.vals[f][v]
}

// load gives what a pointer kept under key in an object of root r may point to.
func (a *effAna) load(f *ssa.Function, r root, key string, deep bool) rootSet {
	out := rootSet{}
	globs := func() {
		for g := range a.globIn[key] {
			out[root{kind: rGlobal, glob: g}] = true
		}
	}
	switch r.kind {
	case rParam, rDeref:
		out[root{kind: rDeref, idx: r.idx, key: key}] = true
		globs()
		for x := range a.storedHere(f, key) {
			out[x] = true
		}
	case rFree:
		out[r] = true
		globs()
	case rGlobal:
		out[r] = true
		globs()
	case rExt:
		out[r] = true
	case rFresh:
		globs()
		for x := range a.storedHere(f, key) {
			out[x] = true
		}
		out[r] = true
	case rAlloc:
		c := a.cells[f][r.site]
		out.addAll(c[key])
		if deep {
			// any object reachable from here
			seen := map[root]bool{}
			var walk func(x root)
			walk = func(x root) {
				if seen[x] {
					return
				}
				seen[x] = true
				if x.kind != rAlloc {
					out.addAll(a.load(f, x, key, false))
					return
				}
				for k, s := range a.cells[f][x.site] {
					if k == key {
						out.addAll(s)
					}
					for y := range s {
						walk(y)
					}
				}
			}
			walk(r)
		}
	}
	return out
}

func (a *effAna) storedHere(f *ssa.Function, key string) rootSet {
	out := rootSet{}
	for r := range a.sum[f].stored[key] {
		out[r] = true
	}
	return out
}

func (a *effAna) write(f *ssa.Function, s rootSet, where string) {
	for r := range s {
		if r.kind == rAlloc || r.kind == rFresh {
			continue
		}
		if _, ok := a.sum[f].writes[r]; !ok {
			a.sum[f].writes[r] = where
			a.changed = true
		}
	}
}

// store records that pointers vs are kept under key in the objects objs.
func (a *effAna) store(f *ssa.Function, objs rootSet, key string, vs rootSet, where string) {
	if len(vs) == 0 {
		return
	}
	for v := range vs {
		if v.kind == rGlobal {
			if a.globIn[key] == nil {
				a.globIn[key] = map[*ssa.Global]bool{}
			}
			if !a.globIn[key][v.glob] {
				a.globIn[key][v.glob] = true
				a.changed = true
			}
		}
	}
	for o := range objs {
		if o.kind == rAlloc {
			c := a.cells[f]
			if c[o.site] == nil {
				c[o.site] = map[string]rootSet{}
			}
			if c[o.site][key] == nil {
				c[o.site][key] = rootSet{}
			}
			if c[o.site][key].addAll(vs) {
				a.changed = true
			}
			continue
		}
		for v := range vs {
			m := a.sum[f].stored[key]
			if m == nil {
				m = map[root]string{}
				a.sum[f].stored[key] = m
			}
			if _, ok := m[v]; !ok {
				m[v] = where
				a.changed = true
			}
			k := [2]any{o, v}
			if _, ok := a.sum[f].into[k]; !ok {
				a.sum[f].into[k] = where
				a.changed = true
			}
		}
	}
}

func rootsOf(s map[root]string) rootSet {
	o := rootSet{}
	for r := range s {
		o[r] = true
	}
	return o
}

// fullSlice: append to it cannot write into its array (len == cap > 0 known).
func fullSlice(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok {
		return false
	}
	if s.Max != nil {
		return s.High != nil && s.Max == s.High
	}
	if s.High != nil {
		return false
	}
	_, isArr := s.X.Type().Underlying().(*types.Pointer)
	return isArr
}

func (a *effAna) inModule(f *ssa.Function) bool {
	g := f
	for g.Parent() != nil {
		g = g.Parent()
	}
	if g.Pkg != nil {
		return isModPkg(g.Pkg.Pkg.Path())
	}
	if o := g.Object(); o != nil && o.Pkg() != nil {
		return isModPkg(o.Pkg().Path())
	}
	return false
}

func (a *effAna) ensure(f *ssa.Function) *effSummary {
	if s := a.sum[f]; s != nil {
		return s
	}
	s := newEff(f.Signature.Results().Len())
	a.sum[f] = s
	a.vals[f] = map[ssa.Value]rootSet{}
	a.cells[f] = map[ssa.Value]map[string]rootSet{}
	a.callees[f] = map[*ssa.Function]bool{}
	a.order = append(a.order, f)
	a.changed = true
	return s
}

// stdNoWrite: bodyless or opaque functions of the standard library that do not
// write through their arguments.
func stdNoWrite(f *ssa.Function) bool {
	if f.Pkg == nil {
		return false
	}
	switch f.Pkg.Pkg.Path() {
	case "internal/bytealg", "math/bits", "math", "internal/cpu", "internal/runtime/atomic", "strings", "unicode/utf8", "errors", "strconv", "math/big":
		return true
	case "bytes":
		return f.Signature.Recv() == nil
	case "fmt":
		return !strings.HasPrefix(f.Name(), "F") && !strings.Contains(f.Name(), "can")
	case "crypto/subtle":
		return strings.HasPrefix(f.Name(), "ConstantTime") && f.Name() != "ConstantTimeCopy"
	}
	return false
}

// cha: module methods an interface call can reach.
func (a *effAna) cha(c *ssa.CallCommon) []*ssa.Function {
	it, ok := c.Value.Type().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	k := c.Value.Type().String() + "." + c.Method.Name()
	if r, ok := a.chaC[k]; ok {
		return r
	}
	var out []*ssa.Function
	for _, t := range a.modT {
		if types.Implements(t, it) {
			if m := a.p.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); m != nil {
				out = append(out, m)
			}
		}
	}
	a.chaC[k] = out
	return out
}

func (a *effAna) where(p token.Pos) string { return a.p.pos(p) }

// call applies the effect of one call.
func (a *effAna) call(f *ssa.Function, ins ssa.CallInstruction) {
	c := ins.Common()
	pos := a.where(ins.Pos())
	res, _ := ins.(ssa.Value)
	if b, ok := c.Value.(*ssa.Builtin); ok {
		arg := func(i int) rootSet { return a.val(f, c.Args[i]) }
		switch b.Name() {
		case "copy":
			a.write(f, arg(0), pos)
			if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && hasPtr(sl.Elem()) {
				a.copyContents(f, arg(0), arg(1), sl.Elem(), "elem *"+sl.Elem().String(), pos)
			}
		case "append":
			if !fullSlice(c.Args[0]) {
				a.write(f, arg(0), pos)
			}
			o := rootSet{root{kind: rAlloc, site: res}: true}
			o.addAll(arg(0))
			a.addVal(f, res, o)
			if sl, ok := c.Args[0].Type().Underlying().(*types.Slice); ok && hasPtr(sl.Elem()) && len(c.Args) > 1 {
				a.copyContents(f, o, arg(1), sl.Elem(), "elem *"+sl.Elem().String(), pos)
				a.copyContents(f, o, arg(0), sl.Elem(), "elem *"+sl.Elem().String(), pos)
			}
		case "clear", "delete":
			a.write(f, arg(0), pos)
		case "min", "max", "ssa:wrapnilchk", "Slice", "SliceData", "Add", "String", "StringData":
			if res != nil && len(c.Args) > 0 {
				a.addVal(f, res, arg(0))
			}
		}
		return
	}
	var targets []*ssa.Function
	external := false
	var args []ssa.Value
	var free []ssa.Value
	if c.IsInvoke() {
		targets = a.cha(c)
		args = append([]ssa.Value{c.Value}, c.Args...)
		if n, ok := c.Value.Type().(*types.Named); !ok || n.Obj().Pkg() == nil || !isModPkg(n.Obj().Pkg().Path()) {
			external = true
		}
		if len(targets) == 0 {
			external = true
		}
	} else {
		args = c.Args
		switch v := c.Value.(type) {
		case *ssa.Function:
			targets = []*ssa.Function{v}
		case *ssa.MakeClosure:
			targets = []*ssa.Function{v.Fn.(*ssa.Function)}
			free = v.Bindings
		default:
			if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok && a.funcVar[g] != nil {
					targets = a.funcVar[g]
					break
				}
			}
			for _, g := range a.addrT {
				if types.Identical(g.Signature, c.Value.Type().Underlying()) || sigEq(g, c.Value.Type()) {
					targets = append(targets, g)
				}
			}
			if len(targets) == 0 {
				external = true
			}
		}
	}
	for _, t := range targets {
		a.apply(f, t, args, free, c.Value, res, pos)
	}
	if external {
		a.external(f, c, args, res, pos)
	}
}

// sigEq compares a function used as a value with a function type.
func sigEq(g *ssa.Function, t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || g.Signature.Recv() != nil {
		return false
	}
	return types.Identical(types.NewSignatureType(nil, nil, nil, g.Signature.Params(), g.Signature.Results(), g.Signature.Variadic()), types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic()))
}

func (a *effAna) external(f *ssa.Function, c *ssa.CallCommon, args []ssa.Value, res ssa.Value, pos string) {
	name := "a function value"
	ro := false
	if c.IsInvoke() {
		name = c.Method.Name()
		switch name {
		case "Write", "WriteString", "Error", "String", "Size", "BlockSize", "Sum":
			ro = true // io.Writer and hash.Hash must not modify their argument
		}
	}
	for i, v := range args {
		if ro && i > 0 || c.IsInvoke() && i == 0 {
			continue
		}
		if hasPtr(v.Type()) {
			a.write(f, a.val(f, v), pos+" (external "+name+")")
		}
	}
	if c.IsInvoke() {
		// the object behind the interface is its own affair, except package-level state
		for r := range a.val(f, args[0]) {
			if r.kind == rParam || r.kind == rDeref {
				continue
			}
			_ = r
		}
	}
	if res != nil && hasPtr(res.Type()) {
		a.addVal(f, res, rootSet{root{kind: rExt}: true})
	}
}

// apply maps a callee's summary into the caller.
func (a *effAna) apply(f, t *ssa.Function, args, free []ssa.Value, fv ssa.Value, res ssa.Value, pos string) {
	a.callees[f][t] = true
	if len(t.Blocks) == 0 {
		if t.Pkg != nil && a.asm[t.Pkg.Pkg.Path()] != nil && a.inModule(t) {
			e := a.asmEff(t)
			for i, w := range e.writes {
				if i < len(args) {
					a.write(f, a.val(f, args[i]), pos+" -> "+w)
				}
			}
			for s, w := range e.globals {
				if g, ok := t.Pkg.Members[s].(*ssa.Global); ok {
					a.write(f, rootSet{root{kind: rGlobal, glob: g}: true}, pos+" -> "+w)
				}
			}
			for i := range e.writes {
				_ = i
			}
			return
		}
		if stdNoWrite(t) {
			if res != nil && hasPtr(res.Type()) {
				o := rootSet{root{kind: rFresh}: true}
				for _, v := range args {
					o.addAll(a.val(f, v))
				}
				a.addVal(f, res, o)
			}
			return
		}
		a.notes["no body: "+t.String()] = true
		for _, v := range args {
			if hasPtr(v.Type()) {
				a.write(f, a.val(f, v), pos+" (no body: "+t.String()+")")
			}
		}
		if res != nil {
			a.addVal(f, res, rootSet{root{kind: rFresh}: true})
		}
		return
	}
	if !a.inModule(t) && stdNoWrite(t) {
		if res != nil && hasPtr(res.Type()) {
			o := rootSet{root{kind: rFresh}: true}
			for _, v := range args {
				o.addAll(a.val(f, v))
			}
			a.addVal(f, res, o)
		}
		return
	}
	s := a.ensure(t)
	mp := func(r root) rootSet {
		switch r.kind {
		case rParam:
			if r.idx >= len(args) {
				return nil
			}
			o := rootSet{}
			for x := range a.val(f, args[r.idx]) {
				if (x.kind == rParam || x.kind == rFree) && x.key == "" {
					x.key = r.key
				}
				o[x] = true
			}
			return o
		case rDeref:
			if r.idx >= len(args) {
				return nil
			}
			o := rootSet{}
			for x := range a.val(f, args[r.idx]) {
				o.addAll(a.load(f, x, r.key, true))
			}
			return o
		case rFree:
			if free != nil && r.idx < len(free) {
				o := rootSet{}
				o.addAll(a.val(f, free[r.idx]))
				for x := range a.val(f, free[r.idx]) {
					if x.kind == rAlloc {
						for _, s := range a.cells[f][x.site] {
							o.addAll(s)
						}
					}
				}
				return o
			}
			// the closure value itself: what it captured
			o := rootSet{}
			o.addAll(a.val(f, fv))
			return o
		case rAlloc:
			return rootSet{root{kind: rFresh}: true}
		}
		return rootSet{r: true}
	}
	for r, w := range s.writes {
		ww := w
		if a.inModule(t) {
			ww = pos + " -> " + w
			if len(ww) > 400 {
				ww = ww[:400]
			}
		} else {
			ww = pos + " (through " + t.String() + ")"
		}
		a.write(f, mp(r), ww)
	}
	for k, m := range s.stored {
		for v, w := range m {
			vs := mp(v)
			for x := range vs {
				if x.kind == rGlobal {
					continue
				}
				mm := a.sum[f].stored[k]
				if mm == nil {
					mm = map[root]string{}
					a.sum[f].stored[k] = mm
				}
				if _, ok := mm[x]; !ok {
					mm[x] = w
					a.changed = true
				}
			}
			for x := range vs {
				if x.kind == rGlobal && !a.globIn[k][x.glob] {
					if a.globIn[k] == nil {
						a.globIn[k] = map[*ssa.Global]bool{}
					}
					a.globIn[k][x.glob] = true
					a.changed = true
				}
			}
			// local objects handed to the callee may now hold v
			for _, v := range args {
				for o := range a.val(f, v) {
					if o.kind == rAlloc {
						a.store(f, rootSet{o: true}, k, vs, w)
					}
				}
			}
		}
	}
	for k, w := range s.into {
		for o := range mp(k[0].(root)) {
			if o.kind == rAlloc || o.kind == rFresh {
				continue
			}
			for v := range mp(k[1].(root)) {
				kk := [2]any{o, v}
				if _, ok := a.sum[f].into[kk]; !ok {
					a.sum[f].into[kk] = w
					a.changed = true
				}
			}
		}
	}
	if res != nil {
		u := rootSet{}
		for _, rs := range s.ret {
			for r := range rs {
				u.addAll(mp(r))
			}
		}
		if hasPtr(res.Type()) {
			a.addVal(f, res, u)
		}
	}
}

func (a *effAna) copyContents(f *ssa.Function, dst, src rootSet, elem types.Type, key, where string) {
	for _, k := range fieldKeys(elem, key) {
		vs := rootSet{}
		for r := range src {
			vs.addAll(a.load(f, r, k, false))
		}
		a.store(f, dst, k, vs, where)
	}
}

func (a *effAna) step(f *ssa.Function) {
	sum := a.sum[f]
	mod := a.inModule(f)
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Alloc:
				a.addVal(f, x, rootSet{root{kind: rAlloc, site: x}: true})
			case *ssa.MakeSlice:
				a.addVal(f, x, rootSet{root{kind: rAlloc, site: x}: true})
			case *ssa.MakeMap:
				a.addVal(f, x, rootSet{root{kind: rAlloc, site: x}: true})
			case *ssa.MakeChan:
				a.addVal(f, x, rootSet{root{kind: rAlloc, site: x}: true})
			case *ssa.Phi:
				for _, e := range x.Edges {
					a.addVal(f, x, a.val(f, e))
				}
			case *ssa.Convert:
				if hasPtr(x.Type()) || isUintptr(x.Type()) {
					s := a.val(f, x.X)
					if _, ok := x.Type().Underlying().(*types.Slice); ok {
						if bt, ok := x.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
							s = rootSet{root{kind: rAlloc, site: x}: true}
						}
					}
					a.addVal(f, x, s)
				}
			case *ssa.BinOp:
				if isUintptr(x.Type()) {
					a.addVal(f, x, a.val(f, x.X))
					a.addVal(f, x, a.val(f, x.Y))
				}
			case *ssa.ChangeType:
				a.addVal(f, x, a.val(f, x.X))
			case *ssa.ChangeInterface:
				a.addVal(f, x, a.val(f, x.X))
			case *ssa.MultiConvert:
				a.addVal(f, x, a.val(f, x.X))
			case *ssa.SliceToArrayPointer:
				a.addVal(f, x, a.val(f, x.X))
			case *ssa.MakeInterface:
				if hasPtr(x.X.Type()) {
					a.addVal(f, x, a.val(f, x.X))
				}
			case *ssa.TypeAssert:
				a.addVal(f, x, a.val(f, x.X))
			case *ssa.Extract:
				if hasPtr(x.Type()) {
					a.addVal(f, x, a.tupleVal(f, x))
				}
			case *ssa.Field:
				if hasPtr(x.Type()) {
					a.addVal(f, x, a.val(f, x.X))
				}
			case *ssa.Index:
				if hasPtr(x.Type()) {
					a.addVal(f, x, a.val(f, x.X))
				}
			case *ssa.FieldAddr:
				s := rootSet{}
				for r := range a.val(f, x.X) {
					if (r.kind == rParam || r.kind == rFree) && r.key == "" {
						r.key = x.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct).Field(x.Field).Name()
					}
					s[r] = true
				}
				a.addVal(f, x, s)
			case *ssa.IndexAddr:
				a.addVal(f, x, a.val(f, x.X))
			case *ssa.Slice:
				a.addVal(f, x, a.val(f, x.X))
			case *ssa.MakeClosure:
				o := rootSet{root{kind: rAlloc, site: x}: true}
				for _, bv := range x.Bindings {
					o.addAll(a.val(f, bv))
				}
				a.addVal(f, x, o)
				a.ensure(x.Fn.(*ssa.Function))
			case *ssa.UnOp:
				if x.Op == token.MUL && hasPtr(x.Type()) {
					for r := range a.val(f, x.X) {
						for _, k := range fieldKeys(x.Type(), addrKey(x.X)) {
							a.addVal(f, x, a.load(f, r, k, false))
						}
					}
				} else if x.Op == token.ARROW && hasPtr(x.Type()) {
					a.addVal(f, x, rootSet{root{kind: rExt}: true})
				}
			case *ssa.Lookup:
				if hasPtr(x.Type()) {
					for r := range a.val(f, x.X) {
						a.addVal(f, x, a.load(f, r, "map "+x.X.Type().String(), false))
					}
				}
			case *ssa.Range:
				a.addVal(f, x, a.val(f, x.X))
			case *ssa.Next:
				for r := range a.val(f, x.Iter) {
					a.addVal(f, x, rootSet{r: true})
				}
			case *ssa.Store:
				a.write(f, a.val(f, x.Addr), a.where(x.Pos()))
				if hasPtr(x.Val.Type()) {
					for _, k := range fieldKeys(x.Val.Type(), addrKey(x.Addr)) {
						a.store(f, a.val(f, x.Addr), k, a.val(f, x.Val), a.where(x.Pos()))
					}
				}
			case *ssa.MapUpdate:
				a.write(f, a.val(f, x.Map), a.where(x.Pos()))
				k := "map " + x.Map.Type().String()
				a.store(f, a.val(f, x.Map), k, a.val(f, x.Value), a.where(x.Pos()))
				a.store(f, a.val(f, x.Map), k, a.val(f, x.Key), a.where(x.Pos()))
			case *ssa.Send:
				a.store(f, a.val(f, x.Chan), "chan "+x.Chan.Type().String(), a.val(f, x.X), a.where(x.Pos()))
			case *ssa.Call:
				a.call(f, x)
			case *ssa.Defer:
				a.call(f, x)
			case *ssa.Go:
				a.call(f, x)
			case *ssa.Return:
				for i, v := range x.Results {
					if i < len(sum.ret) && hasPtr(v.Type()) {
						s := rootSet{}
						for r := range a.val(f, v) {
							if r.kind == rAlloc {
								s[root{kind: rFresh}] = true
								// what the returned object holds
								for k, vs := range a.cells[f][r.site] {
									a.store(f, rootSet{root{kind: rFresh}: true}, k, vs, a.where(x.Pos()))
								}
								continue
							}
							s[r] = true
						}
						if sum.ret[i].addAll(s) {
							a.changed = true
						}
					}
				}
			}
		}
	}
	_ = mod
}

func isUintptr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uintptr
}

// tupleVal: one result of a call.
func (a *effAna) tupleVal(f *ssa.Function, x *ssa.Extract) rootSet {
	return a.val(f, x.Tuple)
}

// outputs lists, for exported operations of the documented interface, the
// arguments whose memory they may write (0 is the receiver of a method).
// Methods not listed may write their receiver only; functions nothing.
var outputs = map[string][]int{
	"dh/sidh.DeriveSecret":                    {0},
	"dh/sidh.GeneratePrivateKey":              {0, 1},
	"dh/sidh.GeneratePublicKey":               {0},
	"(*dh/sidh.PrivateKey).DeriveSecret":      {1},
	"(*dh/sidh.PrivateKey).Export":            {1},
	"(*dh/sidh.PrivateKey).GeneratePublicKey": {1},
	"(*dh/sidh.PrivateKey).Generate":          {0, 1},
	"(*dh/sidh.PrivateKey).SharedSecretSize":  {},
	"(*dh/sidh.PrivateKey).Size":              {},
	"(*dh/sidh.PublicKey).Export":             {1},
	"(*dh/sidh.PublicKey).Size":               {},
	"(*dh/sidh.Key).Variant":                  {},
	"(*dh/sidh.KEM).Encapsulate":              {0, 1, 2},
	"(*dh/sidh.KEM).Decapsulate":              {0, 1},
	"dh/csidh.DeriveSecret":                   {0, 3},
	"dh/csidh.GeneratePrivateKey":             {0, 1},
	"dh/csidh.GeneratePublicKey":              {0, 2},
	"dh/csidh.Validate":                       {1},
	"(*dh/csidh.PublicKey).Export":            {1},
	"(dh/csidh.PrivateKey).Export":            {1},
	"hash/sha3.ShakeSum128":                   {0},
	"hash/sha3.ShakeSum256":                   {0},
	"(*hash/sha3.state).Sum":                  {1},
	"(*hash/sha3.state).Clone":                {},
	"(*hash/sha3.cshakeState).Clone":          {},
	"(*hash/sha3.state).Read":                 {0, 1},
	"(*hash/sha3.state).Size":                 {},
	"(*hash/sha3.state).BlockSize":            {},
	"(*hash/sm3.digest).Sum":                  {1},
	"(*hash/sm3.digest).Size":                 {},
	"(*hash/sm3.digest).BlockSize":            {},
	"(*drbg.CtrDrbg).Read":                    {0, 1},
	"(*drbg.CtrDrbg).ReadWithAdditionalData":  {0, 1},
	"(*kem/mkem.MultiKEM).Encapsulate":        {0, 1},
	"(*kem/mkem.MultiKEM).Decapsulate":        {0, 1},
	"(*kem/mkem.KEM).Encapsulate":             {0, 1, 2},
	"(*kem/mkem.KEM).Decapsulate":             {0, 1},
	"(*drbg/internal/aes.AES).Encrypt":        {1},
	"(*drbg/internal/aes.AES).Decrypt":        {1},
	"(*drbg/internal/aes.AESAsm).Encrypt":     {1},
	"(*drbg/internal/aes.AESAsm).Decrypt":     {1},
	"(*drbg/internal/aes.AES).SetKey":         {0},
	"(*drbg/internal/aes.AESAsm).SetKey":      {0},
}

func effName(f *ssa.Function) string {
	s := strings.ReplaceAll(f.String(), modulePath+"/", "")
	if strings.HasPrefix(s, "mkem.") {
		s = "kem/" + s
	}
	s = strings.Replace(s, "(*mkem.", "(*kem/mkem.", 1)
	return strings.Replace(s, "(mkem.", "(kem/mkem.", 1)
}

func effEntry(f *ssa.Function) bool {
	if f.Parent() != nil || f.Pkg == nil || !token.IsExported(f.Name()) || f.Synthetic != "" {
		return false
	}
	path := f.Pkg.Pkg.Path()
	if strings.Contains(path, "/internal/") {
		_, ok := outputs[effName(f)]
		return ok
	}
	return !strings.HasSuffix(path, "/sidh/common")
}

func isReaderLike(t types.Type) bool {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return true
	}
	s := t.String()
	return strings.HasSuffix(s, "drbg.CtrDrbg") || strings.HasSuffix(s, "Reader")
}

func anaEffects(cfg Config) []*Result {
	t0 := time.Now()
	res := &Result{Harness: "effects", Config: cfg.String(), Prims: map[string]int{}}
	defer func() { res.WallS = time.Since(t0).Seconds() }()
	p, err := load(cfg, "-", "./...", "mkem")
	if err != nil || len(p.errs) > 0 {
		res.Crash = fmt.Sprintf("the source does not type-check: %v %v", err, p.errs)
		return []*Result{res}
	}
	p.buildSSA()
	a := &effAna{p: p, sum: map[*ssa.Function]*effSummary{}, globIn: map[string]map[*ssa.Global]bool{},
		vals: map[*ssa.Function]map[ssa.Value]rootSet{}, cells: map[*ssa.Function]map[ssa.Value]map[string]rootSet{},
		chaC: map[string][]*ssa.Function{}, unknown: map[string]string{}, callees: map[*ssa.Function]map[*ssa.Function]bool{},
		asmSum: map[string]*asmEffect{}, notes: map[string]bool{}}
	a.asm, err = p.loadAsm()
	if err != nil {
		res.Crash = err.Error()
		return []*Result{res}
	}
	obl := func(name string, ok bool, where, detail string) {
		res.Obls = append(res.Obls, Obligation{Harness: res.Harness, Name: name, OK: ok, Where: where, Detail: detail})
	}
	for path, q := range p.byPath {
		if !isModPkg(path) || strings.HasSuffix(path, "/verifrt") || q.Types == nil || p.prog.Package(q.Types) == nil {
			continue
		}
		for _, m := range p.prog.Package(q.Types).Members {
			if t, ok := m.(*ssa.Type); ok {
				if _, isI := t.Type().Underlying().(*types.Interface); !isI {
					a.modT = append(a.modT, t.Type(), types.NewPointer(t.Type()))
				}
			}
		}
	}
	sort.Slice(a.modT, func(i, j int) bool { return a.modT[i].String() < a.modT[j].String() })
	fs := p.modFuncs()
	taken := map[*ssa.Function]bool{}
	for _, f := range fs {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Function)
					if !ok {
						continue
					}
					if c, isC := in.(ssa.CallInstruction); isC && c.Common().Value == *op && op == &c.Common().Value {
						continue
					}
					taken[g] = true
				}
			}
		}
	}
	for g := range taken {
		a.addrT = append(a.addrT, g)
	}
	sort.Slice(a.addrT, func(i, j int) bool { return a.addrT[i].String() < a.addrT[j].String() })
	a.funcVars(fs)
	for _, f := range fs {
		if len(f.Blocks) > 0 {
			a.ensure(f)
		}
	}
	// initialisers run before everything: they only matter for what globals hold
	for path, q := range p.byPath {
		if !isModPkg(path) || strings.HasSuffix(path, "/verifrt") || q.Types == nil {
			continue
		}
		if sp := p.prog.Package(q.Types); sp != nil {
			if f := sp.Func("init"); f != nil {
				a.ensure(f)
			}
		}
	}
	rounds := 0
	for a.changed = true; a.changed; rounds++ {
		a.changed = false
		for i := 0; i < len(a.order); i++ {
			a.step(a.order[i])
		}
		if rounds > 200 {
			res.Crash = "no fixpoint"
			return []*Result{res}
		}
	}
	n := 0
	for _, f := range fs {
		if !effEntry(f) || len(f.Blocks) == 0 {
			continue
		}
		n++
		s := a.sum[f]
		name := effName(f)
		allowed := map[int]bool{}
		lst, listed := outputs[name]
		isM := f.Signature.Recv() != nil
		if listed {
			for _, i := range lst {
				allowed[i] = true
			}
		} else if isM {
			allowed[0] = true
		}
		bad := map[int]string{}
		glob := map[string]string{}
		for r, w := range s.writes {
			switch r.kind {
			case rGlobal:
				if r.glob.Pkg != nil && isModPkg(r.glob.Pkg.Pkg.Path()) {
					glob[r.glob.String()] = w
				}
			case rParam, rDeref:
				if !allowed[r.idx] && !scratchField(f, r) {
					if o, ok := bad[r.idx]; !ok || w < o {
						bad[r.idx] = w
					}
				}
			}
		}
		where := p.pos(f.Pos())
		det := ""
		for _, g := range keysS(glob) {
			det += g + " is written at " + glob[g] + "; "
		}
		obl(name+" writes no package-level variable", det == "", where, det)
		for i, pa := range f.Params {
			if allowed[i] || !hasPtr(pa.Type()) {
				continue
			}
			if i > 0 && isReaderLike(pa.Type()) {
				continue
			}
			_, isP := pa.Type().Underlying().(*types.Basic)
			if isP {
				continue
			}
			obl(fmt.Sprintf("%s does not write its argument %d", name, i), bad[i] == "", where, pa.Name()+" is written at "+bad[i])
			// nor keep a reference to it
			ret := ""
			for k, w := range s.into {
				o, v := k[0].(root), k[1].(root)
				if v.idx == i && (v.kind == rParam || v.kind == rDeref) && !(i == 0 && isM) {
					if o.kind == rGlobal || o.kind == rExt || (o.kind == rParam || o.kind == rDeref || o.kind == rFresh) && o.idx != i {
						if v.kind == rParam {
							ret = o.String() + " keeps a reference, stored at " + w
						}
					}
				}
			}
			obl(fmt.Sprintf("%s keeps no reference to its argument %d", name, i), ret == "", where, ret)
		}
	}
	res.Steps = len(a.order)
	for f := range a.sum {
		if a.inModule(f) {
			res.Funcs = append(res.Funcs, effName(f))
		}
	}
	sort.Strings(res.Funcs)
	obl(fmt.Sprintf("%d entry points and %d functions analysed in %d rounds", n, len(a.order), rounds), n > 0, "", "")
	return []*Result{res}
}

// funcVars finds package-level function variables whose every value is a known function.
func (a *effAna) funcVars(fs []*ssa.Function) {
	a.funcVar = map[*ssa.Global][]*ssa.Function{}
	bad := map[*ssa.Global]bool{}
	all := append([]*ssa.Function{}, fs...)
	for path, q := range a.p.byPath {
		if isModPkg(path) && !strings.HasSuffix(path, "/verifrt") && q.Types != nil && a.p.prog.Package(q.Types) != nil {
			all = append(all, a.p.prog.Package(q.Types).Func("init"))
		}
	}
	for _, f := range all {
		if f == nil {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				st, isStore := in.(*ssa.Store)
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
						continue
					}
					if isStore && st.Addr == g {
						v := st.Val
						if c, ok := v.(*ssa.ChangeType); ok {
							v = c.X
						}
						if fn, ok := v.(*ssa.Function); ok {
							a.funcVar[g] = append(a.funcVar[g], fn)
							continue
						}
					}
					bad[g] = true
				}
			}
		}
	}
	for g := range bad {
		delete(a.funcVar, g)
	}
}

// scratchField: csidh keys carry a scratch buffer beside their value.
func scratchField(f *ssa.Function, r root) bool {
	if r.kind != rParam || r.key == "" {
		return false
	}
	t := f.Params[r.idx].Type()
	for {
		switch u := t.Underlying().(type) {
		case *types.Pointer:
			t = u.Elem()
			continue
		case *types.Slice:
			t = u.Elem()
			continue
		}
		break
	}
	val := map[string]string{modulePath + "/dh/csidh.PublicKey": "a", modulePath + "/dh/csidh.PrivateKey": "e"}[t.String()]
	st, ok := t.Underlying().(*types.Struct)
	if val == "" || !ok {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == val {
			return r.key != val
		}
	}
	return false
}
