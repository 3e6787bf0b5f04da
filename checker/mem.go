package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---------- abstract values

type Val interface{}

type Object struct {
	id    int
	name  string
	size  int64
	typ   types.Type // element layout of the object (nil: raw bytes)
	sym   string     // non-empty: initial content symbolic
	isMap bool
	ro    bool
	pos   token.Pos
}
type Ptr struct {
	o   *Object
	off *Term
}
type Slice struct {
	o             *Object
	off, len, cap *Term
	elem          types.Type
}
type Str struct {
	known bool
	s     string
	b     *strBytes // otherwise: the bytes, of known number
	len   *Term
}

type strBytes struct{ b []*Term }

// bytes lists the bytes of a string of known length.
func (s Str) bytes() ([]*Term, bool) {
	if s.known {
		r := make([]*Term, len(s.s))
		for i := range r {
			r[i] = Const(8, uint64(s.s[i]))
		}
		return r, true
	}
	if s.b != nil {
		return s.b.b, true
	}
	return nil, false
}

func mkStr(b []*Term) Str {
	r := make([]byte, len(b))
	for i, t := range b {
		if t.k != KConst {
			return Str{b: &strBytes{b}, len: Const(64, uint64(len(b)))}
		}
		r[i] = byte(t.c)
	}
	return Str{known: true, s: string(r)}
}

type Iface struct {
	typ types.Type // nil: nil interface
	v   Val
}
type FuncVal struct {
	fn   *ssa.Function
	free []Val
}
type Agg struct {
	typ    types.Type
	leaves []Val
}
type Tuple []Val
type Choice struct {
	c    *Term
	a, b Val
}
type Unknown struct{ why string }
type NilFunc struct{}
type MapRef struct{ o *Object }
type Opaque struct{ name string } // a distinct non-nil thing

// ---------- type layout (amd64)

var sizes = types.SizesFor("gc", "amd64")

type leaf struct {
	off int64
	w   int64
	typ types.Type
}

var leafCache = map[types.Type][]leaf{}

func flatten(t types.Type) []leaf {
	if l, ok := leafCache[t]; ok {
		return l
	}
	var out []leaf
	switch u := t.Underlying().(type) {
	case *types.Struct:
		fs := make([]*types.Var, u.NumFields())
		for i := range fs {
			fs[i] = u.Field(i)
		}
		offs := sizes.Offsetsof(fs)
		for i, f := range fs {
			for _, l := range flatten(f.Type()) {
				out = append(out, leaf{offs[i] + l.off, l.w, l.typ})
			}
		}
	case *types.Array:
		el := flatten(u.Elem())
		es := sizes.Sizeof(u.Elem())
		for i := int64(0); i < u.Len(); i++ {
			for _, l := range el {
				out = append(out, leaf{i*es + l.off, l.w, l.typ})
			}
		}
	default:
		out = []leaf{{0, sizes.Sizeof(t), t}}
	}
	leafCache[t] = out
	return out
}

// leafAt finds the scalar leaf of t that covers byte offset off.
func leafAt(t types.Type, off int64) (start, w int64, typ types.Type, ok bool) {
	base := int64(0)
	for {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			fs := make([]*types.Var, u.NumFields())
			for i := range fs {
				fs[i] = u.Field(i)
			}
			offs := sizes.Offsetsof(fs)
			found := false
			for i := len(fs) - 1; i >= 0; i-- {
				if off-base >= offs[i] && off-base < offs[i]+sizes.Sizeof(fs[i].Type()) {
					base += offs[i]
					t = fs[i].Type()
					found = true
					break
				}
			}
			if !found {
				return 0, 0, nil, false
			}
		case *types.Array:
			es := sizes.Sizeof(u.Elem())
			if es == 0 {
				return 0, 0, nil, false
			}
			i := (off - base) / es
			if i >= u.Len() {
				return 0, 0, nil, false
			}
			base += i * es
			t = u.Elem()
		default:
			return base, sizes.Sizeof(t), t, true
		}
	}
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean) != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func width(t types.Type) uint8 {
	if isBool(t) {
		return 1
	}
	return uint8(8 * sizes.Sizeof(t))
}

func zeroOf(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return Str{known: true}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Info()&(types.IsInteger|types.IsBoolean) != 0:
			return Const(width(t), 0)
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		case u.Info()&types.IsFloat != 0:
			return Opaque{"float"}
		}
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{off: Const(64, 0), len: Const(64, 0), cap: Const(64, 0), elem: u.Elem()}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return NilFunc{}
	case *types.Map:
		return MapRef{}
	case *types.Struct, *types.Array:
		ls := flatten(t)
		a := Agg{typ: t, leaves: make([]Val, len(ls))}
		for i, l := range ls {
			a.leaves[i] = zeroOf(l.typ)
		}
		return a
	case *types.Tuple:
		tp := Tuple{}
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, zeroOf(u.At(i).Type()))
		}
		return tp
	}
	return Unknown{"zero of " + t.String()}
}

var unknownCtr int

func freshUnknown(t types.Type, why string) Val {
	switch u := t.Underlying().(type) {
	case *types.Struct, *types.Array:
		ls := flatten(t)
		a := Agg{typ: t, leaves: make([]Val, len(ls))}
		for i, l := range ls {
			a.leaves[i] = freshUnknown(l.typ, why)
		}
		return a
	case *types.Tuple:
		tp := Tuple{}
		for i := 0; i < u.Len(); i++ {
			tp = append(tp, freshUnknown(u.At(i).Type(), why))
		}
		return tp
	}
	if isInt(t) {
		unknownCtr++
		return Sym(width(t), fmt.Sprintf("unknown#%d(%s)", unknownCtr, why))
	}
	return Unknown{why}
}

func symLeaf(name string, t types.Type) Val {
	if isInt(t) {
		return Sym(width(t), name)
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return Iface{typ: types.Typ[types.Invalid], v: Opaque{name}}
	case *types.Pointer:
		_ = u
		return Unknown{name}
	}
	return Unknown{name}
}

func mergeVal(c *Term, a, b Val) Val {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.w == y.w {
			return Ite(c, x, y)
		}
	case Ptr:
		if y, ok := b.(Ptr); ok && x.o == y.o {
			if x.o == nil {
				return x
			}
			return Ptr{x.o, Ite(c, x.off, y.off)}
		}
	case Slice:
		if y, ok := b.(Slice); ok && x.o == y.o {
			return Slice{x.o, Ite(c, x.off, y.off), Ite(c, x.len, y.len), Ite(c, x.cap, y.cap), x.elem}
		}
	case Agg:
		if y, ok := b.(Agg); ok && len(x.leaves) == len(y.leaves) {
			r := Agg{typ: x.typ, leaves: make([]Val, len(x.leaves))}
			for i := range x.leaves {
				r.leaves[i] = mergeVal(c, x.leaves[i], y.leaves[i])
			}
			return r
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			r := make(Tuple, len(x))
			for i := range x {
				r[i] = mergeVal(c, x[i], y[i])
			}
			return r
		}
	case Str:
		if y, ok := b.(Str); ok && x == y {
			return x
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			m := mergeVal(c, x.v, y.v)
			if _, bad := m.(Choice); !bad {
				return Iface{x.typ, m}
			}
		}
		if y, ok := b.(Iface); ok && x.typ == nil && y.typ == nil {
			return x
		}
	case MapRef:
		if b == a {
			return a
		}
	case NilFunc:
		if b == a {
			return a
		}
	case Unknown:
		return x
	}
	if y, ok := b.(Unknown); ok {
		return y
	}
	if sameVal(a, b) {
		return a
	}
	return Choice{c, a, b}
}

func sameVal(a, b Val) bool {
	switch x := a.(type) {
	case Agg, Tuple:
		return false
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return false
		}
		if x.typ == nil || y.typ == nil {
			return x.typ == nil && y.typ == nil
		}
		return types.Identical(x.typ, y.typ) && sameVal(x.v, y.v)
	case Choice:
		y, ok := b.(Choice)
		return ok && x.c == y.c && sameVal(x.a, y.a) && sameVal(x.b, y.b)
	case *FuncVal:
		return a == b
	}
	switch b.(type) {
	case Agg, Tuple, Iface, Choice:
		return false
	}
	return a == b
}

// ---------- persistent memory

type Cell struct {
	w    int32
	v    Val
	site token.Pos
}
type OState struct {
	owner int64
	cells map[int64]Cell
	keys  map[string]mapEnt
	havoc string // content replaced by symbols named after this
	sites *siteList
}
type mapEnt struct {
	key Val
	v   Val
}
type siteList struct{}

const trieBits = 5
const trieW = 1 << trieBits

type tnode struct {
	owner int64
	kid   [trieW]*tnode
	leaf  [trieW]*OState
}

// State is one abstract state: path condition and memory.
type State struct {
	tok  int64
	pc   *Term
	root *tnode
}

var tokCtr int64

func newTok() int64 { tokCtr++; return tokCtr }

const trieDepth = 4 // 2^20 objects

func (s *State) fork() *State {
	n := &State{tok: newTok(), pc: s.pc, root: s.root}
	s.tok = newTok()
	return n
}

func (s *State) getRaw(id int) *OState {
	n := s.root
	for d := trieDepth - 1; d > 0; d-- {
		if n == nil {
			return nil
		}
		n = n.kid[id>>(trieBits*d)&(trieW-1)]
	}
	if n == nil {
		return nil
	}
	return n.leaf[id&(trieW-1)]
}

func (s *State) setRaw(id int, o *OState) {
	own := func(n *tnode) *tnode {
		if n == nil {
			return &tnode{owner: s.tok}
		}
		if n.owner == s.tok {
			return n
		}
		c := *n
		c.owner = s.tok
		return &c
	}
	s.root = own(s.root)
	n := s.root
	for d := trieDepth - 1; d > 0; d-- {
		i := id >> (trieBits * d) & (trieW - 1)
		n.kid[i] = own(n.kid[i])
		n = n.kid[i]
	}
	n.leaf[id&(trieW-1)] = o
}

func (s *State) mut(o *Object) *OState {
	os := s.getRaw(o.id)
	if os == nil {
		os = &OState{owner: s.tok, cells: map[int64]Cell{}}
		s.setRaw(o.id, os)
		return os
	}
	if os.owner == s.tok {
		return os
	}
	n := &OState{owner: s.tok, cells: make(map[int64]Cell, len(os.cells)+1), havoc: os.havoc}
	for k, v := range os.cells {
		n.cells[k] = v
	}
	if os.keys != nil {
		n.keys = make(map[string]mapEnt, len(os.keys)+1)
		for k, v := range os.keys {
			n.keys[k] = v
		}
	}
	s.setRaw(o.id, n)
	return n
}

// join merges two states (disjoint path conditions).
func (in *Interp) join(a, b *State) *State {
	if a == nil || a.pc == False {
		return b
	}
	if b == nil || b.pc == False {
		return a
	}
	pc := Or(a.pc, b.pc)
	c := Restrict(a.pc, pc)
	r := &State{tok: newTok(), pc: pc}
	var rec func(x, y *tnode, d int, base int) *tnode
	rec = func(x, y *tnode, d, base int) *tnode {
		if x == y || y == nil {
			return x
		}
		if x == nil {
			return y
		}
		n := &tnode{owner: r.tok}
		for i := 0; i < trieW; i++ {
			if d > 0 {
				n.kid[i] = rec(x.kid[i], y.kid[i], d-1, base|i<<(trieBits*d))
			} else {
				p, q := x.leaf[i], y.leaf[i]
				switch {
				case p == q || q == nil: // nil: not allocated on that path
					n.leaf[i] = p
				case p == nil:
					n.leaf[i] = q
				default:
					n.leaf[i] = in.mergeObj(c, in.objs[base|i], p, q, r.tok)
				}
			}
		}
		return n
	}
	r.root = rec(a.root, b.root, trieDepth-1, 0)
	return r
}

func (in *Interp) mergeObj(c *Term, o *Object, p, q *OState, tok int64) *OState {
	n := &OState{owner: tok, cells: map[int64]Cell{}}
	empty := &OState{cells: map[int64]Cell{}}
	if p == nil {
		p = empty
	}
	if q == nil {
		q = empty
	}
	if p.havoc == q.havoc {
		n.havoc = p.havoc
	} else if p == empty {
		n.havoc = q.havoc
	} else {
		n.havoc = p.havoc
	}
	if o.isMap {
		n.keys = map[string]mapEnt{}
		for k, e := range p.keys {
			if f, ok := q.keys[k]; ok {
				n.keys[k] = mapEnt{e.key, mergeVal(c, e.v, f.v)}
			} else {
				in.imprecise("map key defined on one path only")
				n.keys[k] = e
			}
		}
		return n
	}
	for k, x := range p.cells {
		y, ok := q.cells[k]
		if ok && y.w == x.w {
			if sameVal(x.v, y.v) {
				n.cells[k] = x
			} else {
				s := x.site
				if s == 0 || y.site > s {
					s = y.site
				}
				n.cells[k] = Cell{x.w, mergeVal(c, x.v, y.v), s}
			}
			continue
		}
		// different granularity or missing on the other side
		var yv Val
		switch x.v.(type) {
		case *Term:
			yv = in.loadInt(q, o, k, int64(x.w), x.v.(*Term).w == 1)
		default:
			yv = in.loadOther(q, o, k, int64(x.w), x.v)
		}
		n.cells[k] = Cell{x.w, mergeVal(c, x.v, yv), x.site}
	}
	for k, y := range q.cells {
		if x, ok := p.cells[k]; ok && x.w == y.w {
			continue
		}
		// bytes of y not covered by a cell of n
		if t, isT := y.v.(*Term); isT {
			covered := false
			for i := int64(0); i < int64(y.w); i++ {
				if in.covering(n, k+i) {
					covered = true
				}
			}
			if !covered {
				n.cells[k] = Cell{y.w, mergeVal(c, in.loadInt(p, o, k, int64(y.w), t.w == 1), y.v), y.site}
				continue
			}
			for i := int64(0); i < int64(y.w); i++ {
				if !in.covering(n, k+i) {
					n.cells[k+i] = Cell{1, mergeVal(c, in.byteAt(p, o, k+i), in.byteAt(q, o, k+i)), y.site}
				}
			}
			continue
		}
		n.cells[k] = Cell{y.w, mergeVal(c, in.loadOther(p, o, k, int64(y.w), y.v), y.v), y.site}
	}
	return n
}

func (in *Interp) covering(os *OState, off int64) bool {
	for d := int64(0); d < 24; d++ {
		if c, ok := os.cells[off-d]; ok && int64(c.w) > d {
			return true
		}
	}
	return false
}

// loadOther reads a non-integer leaf like the one found on another path.
func (in *Interp) loadOther(os *OState, o *Object, off, w int64, like Val) Val {
	if c, ok := os.cells[off]; ok && int64(c.w) == w {
		return c.v
	}
	var t types.Type
	if o.typ != nil {
		if s, lw, lt, ok := leafAt(o.typ, off); ok && s == off && lw == w {
			t = lt
		}
	}
	if t == nil {
		return Unknown{"untyped memory"}
	}
	return in.baseLeaf(os, o, off, t)
}

func (in *Interp) baseLeaf(os *OState, o *Object, off int64, t types.Type) Val {
	name := o.sym
	if os != nil && os.havoc != "" && isInt(t) {
		name = os.havoc
	}
	if name == "" {
		return zeroOf(t)
	}
	if h, ok := in.symTypes[o]; ok {
		if v := h(off, t); v != nil {
			return v
		}
	}
	return symLeaf(fmt.Sprintf("%s[%d]", name, off), t)
}

func (in *Interp) byteAt(os *OState, o *Object, off int64) *Term {
	for d := int64(0); d < 8; d++ {
		if c, ok := os.cells[off-d]; ok {
			if int64(c.w) <= d {
				continue
			}
			t, isT := c.v.(*Term)
			if !isT {
				return freshUnknown(types.Typ[types.Uint8], "byte of pointer").(*Term)
			}
			if t.w == 1 {
				return Zext(t, 8)
			}
			if t.w == 8 && d == 0 {
				return t
			}
			return Trunc(Shr(t, uint(8*d)), 8)
		}
	}
	if o.sym == "" && os.havoc == "" {
		return Const(8, 0)
	}
	if o.typ != nil {
		if s, w, lt, ok := leafAt(o.typ, off); ok {
			v := in.baseLeaf(os, o, s, lt)
			t, isT := v.(*Term)
			if !isT {
				return freshUnknown(types.Typ[types.Uint8], "byte of pointer").(*Term)
			}
			if w == 1 {
				return Zext(t, 8)
			}
			return Trunc(Shr(t, uint(8*(off-s))), 8)
		}
	}
	return in.baseLeaf(os, o, off, types.Typ[types.Uint8]).(*Term)
}

var emptyOS = &OState{cells: map[int64]Cell{}}

func (in *Interp) loadInt(os *OState, o *Object, off, w int64, asBool bool) *Term {
	if os == nil {
		os = emptyOS
	}
	if c, ok := os.cells[off]; ok && int64(c.w) == w {
		if t, isT := c.v.(*Term); isT {
			if t.w == 1 && !asBool {
				return Zext(t, 8)
			}
			if t.w != 1 && asBool {
				return toBool(t)
			}
			return t
		}
	}
	if o.typ != nil {
		if s, lw, lt, ok := leafAt(o.typ, off); ok && s == off && lw == w && isInt(lt) {
			free := true
			for i := int64(0); i < w && free; i++ {
				if in.covering(os, off+i) {
					free = false
				}
			}
			if free {
				t := in.baseLeaf(os, o, off, lt).(*Term)
				if t.w == 1 && !asBool {
					return Zext(t, 8)
				}
				if t.w != 1 && asBool {
					return toBool(t)
				}
				return t
			}
		}
	}
	r := Const(uint8(8*w), 0)
	for i := int64(0); i < w; i++ {
		r = Xor(r, Shl(Zext(in.byteAt(os, o, off+i), uint8(8*w)), uint(8*i)))
	}
	if asBool {
		return toBool(r)
	}
	return r
}

func (in *Interp) loadLeafConst(st *State, o *Object, off int64, t types.Type) Val {
	os := st.getRaw(o.id)
	if os == nil {
		os = emptyOS
	}
	w := sizes.Sizeof(t)
	if off < 0 || off+w > o.size {
		return freshUnknown(t, "out of object "+o.name)
	}
	if isInt(t) {
		return in.loadInt(os, o, off, w, isBool(t))
	}
	if c, ok := os.cells[off]; ok && int64(c.w) == w {
		return c.v
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		if c, ok := os.cells[off]; ok {
			return c.v
		}
	}
	return in.baseLeaf(os, o, off, t)
}

func (in *Interp) loadConst(st *State, o *Object, off int64, t types.Type) Val {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		ls := flatten(t)
		a := Agg{typ: t, leaves: make([]Val, len(ls))}
		for i, l := range ls {
			a.leaves[i] = in.loadLeafConst(st, o, off+l.off, l.typ)
		}
		return a
	}
	return in.loadLeafConst(st, o, off, t)
}

// offsets calls f for every possible constant value of off with its condition.
func (in *Interp) offsets(off *Term, size int64, f func(cond *Term, k int64)) bool {
	s := off
	for _, l := range leavesOf(off) {
		if l.k != KConst {
			s = splitNum(off, min(size, 1<<18))
			break
		}
	}
	if s == nil {
		return false
	}
	conds := map[int64]*Term{}
	var rec func(t, c *Term)
	rec = func(t, c *Term) {
		if c == False {
			return
		}
		if t.k == KITE {
			rec(t.hi, And(c, varNode(t.v)))
			rec(t.lo, And(c, Not(varNode(t.v))))
			return
		}
		k := sgn(t)
		if p, ok := conds[k]; ok {
			conds[k] = Or(p, c)
		} else {
			conds[k] = c
		}
	}
	rec(s, True)
	var ks []int64
	for k := range conds {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	for _, k := range ks {
		f(conds[k], k)
	}
	return true
}

func (in *Interp) load(st *State, p Val, t types.Type) Val {
	v := in.load0(st, p, t)
	if x, ok := v.(*Term); ok && x.k == KITE && st.pc != True {
		return Restrict(x, st.pc)
	}
	return v
}

func (in *Interp) load0(st *State, p Val, t types.Type) Val {
	switch p := p.(type) {
	case Choice:
		return mergeVal(p.c, in.load(st, p.a, t), in.load(st, p.b, t))
	case Ptr:
		if p.o == nil {
			return freshUnknown(t, "nil dereference")
		}
		if p.off.k == KConst {
			return in.loadConst(st, p.o, sgn(p.off), t)
		}
		if v := in.loadTable(st, p.o, p.off, t); v != nil {
			return v
		}
		var r Val
		ok := in.offsets(p.off, p.o.size, func(c *Term, k int64) {
			if k < 0 || k+sizes.Sizeof(t) > p.o.size {
				return
			}
			v := in.loadConst(st, p.o, k, t)
			if r == nil {
				r = v
			} else {
				r = mergeVal(c, v, r)
			}
		})
		if !ok || r == nil {
			in.imprecise("load at unresolved offset of " + p.o.name)
			return freshUnknown(t, "load at symbolic offset")
		}
		return r
	}
	return freshUnknown(t, "load through unknown pointer")
}

// loadTable names a lookup in a constant table by the table's content.
func (in *Interp) loadTable(st *State, o *Object, off *Term, t types.Type) Val {
	if !isInt(t) {
		return nil
	}
	allConst := true
	for _, l := range leavesOf(off) {
		if l.k != KConst {
			allConst = false
		}
	}
	if allConst || o.sym != "" || o.typ == nil {
		return nil
	}
	lo, hi, ok := Range(off)
	if ok && (hi-lo)/sizes.Sizeof(t) < 32 {
		return nil
	}
	os := st.getRaw(o.id)
	if os == nil || os.havoc != "" {
		return nil
	}
	w := sizes.Sizeof(t)
	var content []byte
	var vals []uint64
	for i := int64(0); i+w <= o.size; i += w {
		x := in.loadInt(os, o, i, w, false)
		if x.k != KConst {
			return nil
		}
		content = put64(content, x.c)
		vals = append(vals, x.c)
	}
	h := hash64(content)
	nm := fmt.Sprintf("tbl%x/%d", h, w)
	in.tables[nm] = o.name
	idx := off
	return mapLeaves(idx, func(l *Term) *Term {
		if l.k == KConst {
			return in.loadConst(st, o, sgn(l), t).(*Term)
		}
		// byte offset -> element index
		ls, c := linParts(l)
		okDiv := c%w == 0
		for _, x := range ls {
			if x.k%w != 0 {
				okDiv = false
			}
		}
		if okDiv && w > 1 {
			r := Const(64, uint64(c/w))
			for _, x := range ls {
				r = Add(r, MulConst(x.t, x.k/w))
			}
			l = r
		} else if w > 1 && l.k == KBV {
			l = Shr(l, map[int64]uint{2: 1, 4: 2, 8: 3}[w])
		}
		if wordMode {
			if r := linearTable(vals, l, uint8(8*w)); r != nil {
				return r
			}
		}
		return App(uint8(8*w), nm, l)
	})
}

func hash64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, c := range b {
		h ^= uint64(c)
		h *= 1099511628211
	}
	return h
}

func (in *Interp) storeLeafConst(st *State, o *Object, off int64, t types.Type, v Val, g *Term) {
	w := sizes.Sizeof(t)
	if off < 0 || off+w > o.size {
		in.imprecise("store outside object " + o.name)
		return
	}
	if g != True {
		v = mergeVal(g, v, in.loadLeafConst(st, o, off, t))
	}
	in.putCell(st, o, off, w, v)
}

func (in *Interp) putCell(st *State, o *Object, off, w int64, v Val) {
	os := st.mut(o)
	if in.onStore != nil {
		in.onStore(o, off, w)
	}
	if c, ok := os.cells[off]; ok && int64(c.w) == w {
		os.cells[off] = Cell{int32(w), v, in.curPos}
		return
	}
	for s := off - 23; s < off+w; s++ {
		c, ok := os.cells[s]
		if !ok || s+int64(c.w) <= off {
			continue
		}
		delete(os.cells, s)
		if t, isT := c.v.(*Term); isT && t.w > 1 {
			for i := int64(0); i < int64(c.w); i++ {
				if s+i < off || s+i >= off+w {
					os.cells[s+i] = Cell{1, Trunc(Shr(t, uint(8*i)), 8), c.site}
				}
			}
		}
	}
	os.cells[off] = Cell{int32(w), v, in.curPos}
}

func (in *Interp) storeConst(st *State, o *Object, off int64, t types.Type, v Val, g *Term) {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		ls := flatten(t)
		a, ok := v.(Agg)
		if !ok {
			if ch, isC := v.(Choice); isC {
				in.storeConst(st, o, off, t, ch.b, g)
				in.storeConst(st, o, off, t, ch.a, And(g, ch.c))
				return
			}
			a = freshUnknown(t, "unknown aggregate").(Agg)
		}
		for i, l := range ls {
			in.storeLeafConst(st, o, off+l.off, l.typ, a.leaves[i], g)
		}
		return
	}
	in.storeLeafConst(st, o, off, t, v, g)
}

func (in *Interp) store(st *State, p Val, t types.Type, v Val, g *Term) {
	switch p := p.(type) {
	case Choice:
		in.store(st, p.a, t, v, And(g, p.c))
		in.store(st, p.b, t, v, And(g, Not(p.c)))
		return
	case Ptr:
		if g == False {
			return
		}
		if p.o == nil {
			if And(st.pc, g) != False {
				in.imprecise("store through nil pointer")
			}
			return
		}
		if p.off.k == KConst {
			in.storeConst(st, p.o, sgn(p.off), t, v, g)
			return
		}
		ok := in.offsets(p.off, p.o.size, func(c *Term, k int64) {
			if And(And(c, g), st.pc) == False {
				return
			}
			if k < 0 || k+sizes.Sizeof(t) > p.o.size {
				return
			}
			in.storeConst(st, p.o, k, t, v, And(g, c))
		})
		if !ok {
			in.imprecise("store at unresolved offset of " + p.o.name)
			in.havocObj(st, p.o, "store at symbolic offset")
		}
		return
	}
	in.imprecise("store through unknown pointer")
}

func (in *Interp) havocObj(st *State, o *Object, why string) {
	os := st.mut(o)
	unknownCtr++
	for k, c := range os.cells {
		if t, ok := c.v.(*Term); ok {
			unknownCtr++
			os.cells[k] = Cell{c.w, Sym(t.w, fmt.Sprintf("unknown#%d(%s)", unknownCtr, why)), in.curPos}
		}
	}
	os.havoc = fmt.Sprintf("unknown#%d(%s)", unknownCtr, why)
}
