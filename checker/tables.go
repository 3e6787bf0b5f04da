package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"math/bits"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Analysis "tables" (C23): the package initialisers are evaluated over
// constants; every constant table of the domain parameters must satisfy the
// equation that defines it. Nothing of the repository is executed: values come
// from folding the initialiser code and constant declarations.

type tabAna struct {
	p   *Program
	in  *Interp
	st  *State
	res *Result
}

func (a *tabAna) pkg(path string) *ssa.Package {
	lp := a.p.byPath[modulePath+"/"+path]
	if lp == nil {
		return nil
	}
	return a.p.prog.Package(lp.Types)
}

// words reads a global (or a part of it, by byte offset and type) as a flat
// list of integers; ok is false when the name does not exist.
func (a *tabAna) words(path, name string) ([]uint64, string, bool) {
	sp := a.pkg(path)
	if sp == nil {
		return nil, "", false
	}
	g, ok := sp.Members[name].(*ssa.Global)
	if !ok {
		return nil, "", false
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	w, ok := a.flat(Ptr{a.in.global(g), Const(64, 0)}, t)
	return w, relPos(a.in.fset.Position(g.Pos())), ok
}

func (a *tabAna) flat(p Ptr, t types.Type) ([]uint64, bool) {
	var out []uint64
	for _, l := range flatten(t) {
		v := a.in.load(a.st, Ptr{p.o, Add(p.off, Const(64, uint64(l.off)))}, l.typ)
		c, ok := v.(*Term)
		if !ok || c.k != KConst {
			return nil, false
		}
		out = append(out, c.c)
	}
	return out, true
}

func (a *tabAna) intConst(path, name string) (*big.Int, string, bool) {
	sp := a.pkg(path)
	if sp == nil {
		return nil, "", false
	}
	c, ok := sp.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil, "", false
	}
	v := constant.ToInt(c.Val())
	if v.Kind() != constant.Int {
		return nil, "", false
	}
	n, ok := new(big.Int).SetString(v.ExactString(), 10)
	return n, relPos(a.in.fset.Position(c.Pos())), ok
}

func (a *tabAna) want(name string, ok bool, where, detail string) {
	a.res.Obls = append(a.res.Obls, Obligation{Harness: a.res.Harness, Name: name, OK: ok, Where: where, Detail: detail})
}

func toBig(w []uint64) *big.Int {
	r := new(big.Int)
	for i := len(w) - 1; i >= 0; i-- {
		r.Lsh(r, 64)
		r.Or(r, new(big.Int).SetUint64(w[i]))
	}
	return r
}

// value compares a little-endian word table with its defining value.
func (a *tabAna) value(path, name, what string, want *big.Int) {
	w, pos, ok := a.words(path, name)
	if !ok {
		return
	}
	got := toBig(w)
	a.want(fmt.Sprintf("%s.%s = %s", path, name, what), got.Cmp(want) == 0, pos, fmt.Sprintf("value is %#x, expected %#x", got, want))
}

func (a *tabAna) num(path, name, what string, want int64) {
	n, pos, ok := a.intConst(path, name)
	if !ok {
		return
	}
	a.want(fmt.Sprintf("%s.%s = %s", path, name, what), n.Cmp(big.NewInt(want)) == 0, pos, fmt.Sprintf("value is %v, expected %d", n, want))
}

func pow(b, e int64) *big.Int { return new(big.Int).Exp(big.NewInt(b), big.NewInt(e), nil) }

func anaTables(cfg Config) []*Result { return runTables(cfg, "tables", true) }

// anaDHTables judges the constants of SIDH and CSIDH only.
func anaDHTables(cfg Config) []*Result { return runTables(cfg, "dhtables", false) }

func runTables(cfg Config, name string, all bool) []*Result {
	t0 := time.Now()
	res := &Result{Harness: name, Config: cfg.String(), Prims: map[string]int{}}
	p, err := load(cfg, "-", "./...", "mkem")
	if err != nil {
		res.Crash = err.Error()
		return []*Result{res}
	}
	p.buildSSA()
	in := NewInterp(p.prog)
	a := &tabAna{p: p, in: in, st: p.initState(in), res: res}
	for _, f := range []struct {
		n    string
		id   uint64
		e2   int64
		e3   int64
		wds  int
		msgB uint64
	}{{"434", 2, 216, 137, 7, 16}, {"503", 0, 250, 159, 8, 24}, {"751", 1, 372, 239, 12, 32}} {
		a.sidh(f.n, f.id, f.e2, f.e3, f.wds, f.msgB)
	}
	for name, min := range map[string]int64{
		"FpMaxWords": 12, "MaxSidhPrivateKeyBsz": 48, "MaxMsgBsz": 32, "MaxSikePrivateKeyBsz": 48 + 32,
		"MaxSharedSecretBsz": 188, "MaxPublicKeySz": 564, "MaxCiphertextBsz": 564 + 32,
	} {
		if n, pos, ok := a.intConst("dh/sidh/common", name); ok {
			a.want(fmt.Sprintf("dh/sidh/common.%s covers every parameter set", name), n.Cmp(big.NewInt(min)) >= 0, pos, fmt.Sprintf("value is %v, %d needed", n, min))
		}
	}
	a.csidh()
	if all {
		a.keccak()
		a.sm3()
		a.aes()
	}
	for f := range in.fnSeen {
		res.Funcs = append(res.Funcs, f.String())
	}
	sort.Strings(res.Funcs)
	res.Steps = in.steps
	res.WallS = time.Since(t0).Seconds()
	return []*Result{res}
}

// ---------- SIDH

func (a *tabAna) sidh(n string, id uint64, e2, e3 int64, nw int, msg uint64) {
	path := "dh/sidh/internal/p" + n
	if a.pkg(path) == nil {
		return
	}
	P := "P" + n
	p := new(big.Int).Mul(pow(2, e2), pow(3, e3))
	p.Sub(p, big.NewInt(1))
	one := big.NewInt(1)
	R := new(big.Int).Lsh(one, uint(64*nw))
	mont := func(v *big.Int) *big.Int { r := new(big.Int).Mul(v, R); return r.Mod(r, p) }
	form := fmt.Sprintf("2^%d·3^%d − 1", e2, e3)
	a.value(path, P, form, p)
	a.want(path+": "+form+" is prime", p.ProbablyPrime(20), "", "not prime")
	a.value(path, P+"x2", "2p", new(big.Int).Lsh(p, 1))
	p1 := new(big.Int).Add(p, one)
	a.value(path, P+"p1", "p+1", p1)
	a.value(path, P+"R2", "R² mod p", mont(R))
	if w, pos, ok := a.words(path, P+"p1s8"); ok {
		// (p+1) shifted down by the zero words and up by 8 bits
		sh := new(big.Int).Lsh(p1, 8)
		got := toBig(w)
		a.want(path+"."+P+"p1s8 = (p+1)·2^8", got.Cmp(sh) == 0, pos, fmt.Sprintf("value is %#x, expected %#x", got, sh))
	}
	zeros := int64(0)
	for p1.Bit(int(64*zeros+63)) == 0 && new(big.Int).Mod(p1, new(big.Int).Lsh(one, uint(64*(zeros+1)))).Sign() == 0 {
		zeros++
	}
	zeros = int64(p1.TrailingZeroBits() / 64)
	if _, pos, ok := a.intConst(path, P+"p1Zeros"); ok {
		_ = pos
		a.num(path, P+"p1Zeros", "number of zero words of p+1", zeros)
	} else if w, pos, ok := a.words(path, P+"p1Zeros"); ok {
		a.want(path+"."+P+"p1Zeros = number of zero words of p+1", len(w) == 1 && int64(w[0]) == zeros, pos, fmt.Sprintf("value is %v, expected %d", w, zeros))
	}
	a.num(path, "FpWords", "number of words of p", int64(nw))
	half := new(big.Int).ModInverse(big.NewInt(2), p)
	c := &sidhTab{p: p, R: R}
	fp2 := func(name, what string, v *big.Int) {
		w, pos, ok := a.words(path, name)
		if !ok || len(w) != 24 {
			return
		}
		a.want(fmt.Sprintf("%s.%s = %s", path, name, what), c.same(toBig(w[:12]), mont(v)) && c.same(toBig(w[12:]), new(big.Int)), pos, fmt.Sprintf("value is %#x + %#x i", toBig(w[:12]), toBig(w[12:])))
	}
	fp2("one", "1·R mod p", one)
	fp2("half", "1/2·R mod p", half)
	fp2("six", "6·R mod p", big.NewInt(6))

	// the registered parameter set
	ps := a.params(id)
	if ps == nil {
		a.want(path+": a parameter set is registered under its field identifier", false, "", "no entry in the table of parameter sets")
		return
	}
	where := path + "/params.go"
	bl := (p.BitLen() + 7) / 8
	u := func(f string) uint64 {
		w, ok := a.field(ps, f)
		if !ok || len(w) != 1 {
			return ^uint64(0)
		}
		return w[0]
	}
	eq := func(f string, want uint64, what string) {
		g := u(f)
		a.want(fmt.Sprintf("%s: %s = %s", path, f, what), g == want, where, fmt.Sprintf("value is %d, expected %d", g, want))
	}
	eq("ID", id, "field identifier")
	eq("Bytelen", uint64(bl), "⌈log2 p / 8⌉")
	eq("SharedSecretSize", uint64(2*bl), "one Fp2 element")
	eq("PublicKeySize", uint64(6*bl), "three Fp2 elements")
	eq("MsgLen", msg, "SIKE message length")
	eq("KemSize", msg, "SIKE shared key length")
	eq("CiphertextSize", uint64(6*bl)+msg, "public key and masked message")
	eq("A.SecretBitLen", uint64(e2), "log2 2^e2")
	eq("B.SecretBitLen", uint64(new(big.Int).Sub(pow(3, e3), one).BitLen()-1), "⌊log2 3^e3⌋")
	for _, g := range []string{"A", "B"} {
		bits, by := u(g+".SecretBitLen"), u(g+".SecretByteLen")
		a.want(fmt.Sprintf("%s: %s.SecretByteLen holds SecretBitLen bits", path, g), by != ^uint64(0) && by*8 >= bits && by <= 48, where, fmt.Sprintf("%d bytes for %d bits", by, bits))
		a.want(fmt.Sprintf("%s: the most significant bit of a %s scalar lies in its last byte", path, g), bits-1 < by*8 && (bits-1)/8 <= by-1, where, fmt.Sprintf("%d bits, %d bytes", bits, by))
	}
	f2 := func(f string) (e2t, bool) {
		w, ok := a.field(ps, f)
		if !ok || len(w) != 24 {
			return e2t{}, false
		}
		x, y := toBig(w[:12]), toBig(w[12:])
		p2 := new(big.Int).Lsh(p, 1)
		if x.Cmp(p2) >= 0 || y.Cmp(p2) >= 0 {
			return e2t{}, false
		}
		return e2t{c.unmont(x), c.unmont(y)}, true
	}
	chk2 := func(f, what string, v int64, w *big.Int) {
		x, ok := f2(f)
		e := w
		if e == nil {
			e = big.NewInt(v)
		}
		a.want(fmt.Sprintf("%s: %s = %s", path, f, what), ok && x.a.Cmp(e) == 0 && x.b.Sign() == 0, where, fmt.Sprintf("value is %v + %v i, or not below 2p", x.a, x.b))
	}
	chk2("OneFp2", "1", 1, nil)
	chk2("HalfFp2", "1/2", 0, half)
	chk2("InitCurve.A", "6", 6, nil)
	chk2("InitCurve.C", "1", 1, nil)
	a.torsion(c, path, where, "A", f2, 2, e2)
	a.torsion(c, path, where, "B", f2, 3, e3)
	// strategies: a full binary tree of the right number of leaves, written in
	// pre-order
	for _, s := range []struct {
		g string
		n int64
	}{{"A", e2 / 2}, {"B", e3}} {
		w, ok := a.slice(ps, s.g+".IsogenyStrategy")
		why := ""
		if !ok {
			why = "cannot be read"
		} else {
			why = strategyTree(w, s.n)
		}
		a.want(fmt.Sprintf("%s: %s.IsogenyStrategy is a traversal of a tree with %d leaves", path, s.g, s.n), why == "", where, why)
	}
}

// strategyTree checks a linear strategy: S(1) is empty and S(n) is k followed
// by S(n−k) and S(k), with 0 < k < n.
func strategyTree(w []uint64, n int64) string {
	i := 0
	var rec func(n int64) string
	rec = func(n int64) string {
		if n == 1 {
			return ""
		}
		if i >= len(w) {
			return "too few entries"
		}
		at, k := i, int64(w[i])
		i++
		if k <= 0 || k >= n {
			return fmt.Sprintf("entry %d is %d where a split of %d is required", at, k, n)
		}
		if r := rec(n - k); r != "" {
			return r
		}
		return rec(k)
	}
	if r := rec(n); r != "" {
		return r
	}
	if i != len(w) {
		return fmt.Sprintf("%d entries, %d used", len(w), i)
	}
	return ""
}

type sidhTab struct{ p, R *big.Int }
type e2t struct{ a, b *big.Int }

// same: representatives of field elements lie in [0, 2p).
func (c *sidhTab) same(x, y *big.Int) bool {
	return x.Cmp(new(big.Int).Lsh(c.p, 1)) < 0 && new(big.Int).Mod(new(big.Int).Sub(x, y), c.p).Sign() == 0
}

func (c *sidhTab) unmont(x *big.Int) *big.Int {
	r := new(big.Int).ModInverse(c.R, c.p)
	r.Mul(r, x)
	return r.Mod(r, c.p)
}
func (c *sidhTab) red(x *big.Int) *big.Int { return x.Mod(x, c.p) }
func (c *sidhTab) add(x, y e2t) e2t {
	return e2t{c.red(new(big.Int).Add(x.a, y.a)), c.red(new(big.Int).Add(x.b, y.b))}
}
func (c *sidhTab) sub(x, y e2t) e2t {
	return e2t{c.red(new(big.Int).Sub(x.a, y.a)), c.red(new(big.Int).Sub(x.b, y.b))}
}
func (c *sidhTab) mul(x, y e2t) e2t {
	m := func(p, q *big.Int) *big.Int { return new(big.Int).Mul(p, q) }
	return e2t{c.red(new(big.Int).Sub(m(x.a, y.a), m(x.b, y.b))), c.red(new(big.Int).Add(m(x.a, y.b), m(x.b, y.a)))}
}
func (c *sidhTab) num(n int64) e2t { return e2t{c.red(big.NewInt(n)), new(big.Int)} }
func (e e2t) zero() bool           { return e.a.Sign() == 0 && e.b.Sign() == 0 }

// isSquare: x^((p²−1)/2) = 1, that is the norm is a square in Fp.
func (c *sidhTab) isSquare(x e2t) bool {
	n := new(big.Int).Mul(x.a, x.a)
	n.Add(n, new(big.Int).Mul(x.b, x.b))
	n.Mod(n, c.p)
	return n.Sign() == 0 || big.Jacobi(n, c.p) == 1
}

type xz struct{ x, z e2t }

// dbl and tpl on y² = x³ + 6x² + x.
func (c *sidhTab) dbl(P xz) xz {
	x2, z2, w := c.mul(P.x, P.x), c.mul(P.z, P.z), c.mul(P.x, P.z)
	d := c.sub(x2, z2)
	s := c.add(c.add(x2, c.mul(c.num(6), w)), z2)
	return xz{c.mul(d, d), c.mul(c.mul(c.num(4), w), s)}
}

// dadd: P+Q from P, Q and P−Q.
func (c *sidhTab) dadd(P, Q, D xz) xz {
	u := c.mul(c.sub(P.x, P.z), c.add(Q.x, Q.z))
	v := c.mul(c.add(P.x, P.z), c.sub(Q.x, Q.z))
	s, d := c.add(u, v), c.sub(u, v)
	return xz{c.mul(D.z, c.mul(s, s)), c.mul(D.x, c.mul(d, d))}
}
func (c *sidhTab) mulSmall(P xz, l int64) xz {
	if l == 2 {
		return c.dbl(P)
	}
	return c.dadd(c.dbl(P), P, P)
}

func (a *tabAna) torsion(c *sidhTab, path, where, g string, f2 func(string) (e2t, bool), l, e int64) {
	one := c.num(1)
	names := []string{"AffineP", "AffineQ", "AffineR"}
	var pt [3]e2t
	for i, n := range names {
		x, ok := f2(g + "." + n)
		a.want(fmt.Sprintf("%s: %s.%s is a field element", path, g, n), ok, where, "a coefficient is not below 2p, or unreadable")
		if !ok {
			return
		}
		pt[i] = x
		// on the curve itself (not its twist): x³+6x²+x is a square
		rhs := c.mul(x, c.add(c.add(c.mul(x, x), c.mul(c.num(6), x)), one))
		a.want(fmt.Sprintf("%s: %s.%s lies on the starting curve", path, g, n), c.isSquare(rhs), where, "x³+6x²+x is not a square")
	}
	var last [3]xz
	for i := range names {
		P := xz{pt[i], one}
		for k := int64(0); k < e-1; k++ {
			P = c.mulSmall(P, l)
		}
		last[i] = P
		full := !P.z.zero()
		end := c.mulSmall(P, l)
		if l == 2 && i == 1 && !P.z.zero() {
			// [2^(e−1)]Q = (0,0) keeps (0,0) out of every kernel <P+[k]Q>,
			// where the 4-isogeny formulas do not apply
			a.want(fmt.Sprintf("%s: [2^%d]%s.AffineQ is (0,0)", path, e-1, g), P.x.zero(), where, "another point of order two")
		}
		a.want(fmt.Sprintf("%s: %s.%s has exact order %d^%d", path, g, names[i], l, e), full && end.z.zero(), where, "order is not the group order")
	}
	// independence: the points of order l differ
	for _, ij := range [][2]int{{0, 1}, {0, 2}, {1, 2}} {
		u, v := last[ij[0]], last[ij[1]]
		same := c.sub(c.mul(u.x, v.z), c.mul(v.x, u.z)).zero()
		a.want(fmt.Sprintf("%s: %s.%s and %s.%s generate different subgroups of order %d", path, g, names[ij[0]], g, names[ij[1]], l), !same, where, "the multiples of order "+fmt.Sprint(l)+" coincide")
	}
	// R = P ± Q: x(R) is a root of
	// X²(xp−xq)² − 2X((xp·xq+1)(xp+xq)+2·6·xp·xq) + (xp·xq−1)²
	P, Q, X := pt[0], pt[1], pt[2]
	d, s, m := c.sub(P, Q), c.add(P, Q), c.mul(P, Q)
	t := c.mul(c.mul(X, X), c.mul(d, d))
	b := c.add(c.mul(c.add(m, one), s), c.mul(c.num(12), m))
	t = c.sub(t, c.mul(c.mul(c.num(2), X), b))
	q := c.sub(m, one)
	t = c.add(t, c.mul(q, q))
	a.want(fmt.Sprintf("%s: %s.AffineR is the difference of AffineP and AffineQ", path, g), t.zero(), where, "x(R) is not x(P±Q)")
}

// params finds the registered parameter set: the value of a package-level map
// of package common under this key.
type paramSet struct {
	o   *Object // nil: v holds an aggregate
	off int64
	typ types.Type
	v   Val
}

func (a *tabAna) params(id uint64) *paramSet {
	sp := a.pkg("dh/sidh/common")
	if sp == nil {
		return nil
	}
	for _, m := range sp.Members {
		g, ok := m.(*ssa.Global)
		if !ok {
			continue
		}
		mt, ok := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Map)
		if !ok {
			continue
		}
		r, ok := a.in.load(a.st, Ptr{a.in.global(g), Const(64, 0)}, mt).(MapRef)
		if !ok || r.o == nil {
			continue
		}
		os := a.st.getRaw(r.o.id)
		if os == nil {
			continue
		}
		for _, e := range os.keys {
			k, ok := e.key.(*Term)
			if !ok || k.k != KConst || k.c != id {
				continue
			}
			t := mt.Elem()
			if pt, ok := t.Underlying().(*types.Pointer); ok {
				q, ok := e.v.(Ptr)
				if !ok || q.o == nil || q.off.k != KConst {
					return nil
				}
				return &paramSet{o: q.o, off: int64(q.off.c), typ: pt.Elem()}
			}
			return &paramSet{typ: t, v: e.v}
		}
	}
	return nil
}

// field reads the leaves of a field, by its path of selectors.
func (a *tabAna) field(ps *paramSet, path string) ([]uint64, bool) {
	vs, ok := a.fieldVals(ps, path)
	var out []uint64
	for _, v := range vs {
		c, isT := v.(*Term)
		if !isT || c.k != KConst {
			return nil, false
		}
		out = append(out, c.c)
	}
	return out, ok
}

func (a *tabAna) fieldVals(ps *paramSet, path string) ([]Val, bool) {
	t, off := ps.typ, int64(0)
	for _, f := range strings.Split(path, ".") {
		s, ok := t.Underlying().(*types.Struct)
		if !ok {
			return nil, false
		}
		found := false
		var fs []*types.Var
		for i := 0; i < s.NumFields(); i++ {
			fs = append(fs, s.Field(i))
		}
		offs := sizes.Offsetsof(fs)
		for i, v := range fs {
			if v.Name() == f {
				off += offs[i]
				t = v.Type()
				found = true
			}
		}
		if !found {
			return nil, false
		}
	}
	var out []Val
	if ps.o != nil {
		for _, l := range flatten(t) {
			out = append(out, a.in.load(a.st, Ptr{ps.o, Const(64, uint64(ps.off+off+l.off))}, l.typ))
		}
		return out, true
	}
	ag, ok := ps.v.(Agg)
	if !ok {
		return nil, false
	}
	all := flatten(ps.typ)
	end := off + sizes.Sizeof(t)
	for i, l := range all {
		if l.off >= off && l.off < end && i < len(ag.leaves) {
			out = append(out, ag.leaves[i])
		}
	}
	return out, true
}

func (a *tabAna) slice(ps *paramSet, path string) ([]uint64, bool) {
	vs, ok := a.fieldVals(ps, path)
	if !ok || len(vs) != 1 {
		return nil, false
	}
	s, ok := vs[0].(Slice)
	if !ok || s.o == nil || s.len.k != KConst || s.off.k != KConst {
		return nil, false
	}
	es := sizes.Sizeof(s.elem)
	var out []uint64
	for i := int64(0); i < int64(s.len.c); i++ {
		c, ok := a.in.load(a.st, Ptr{s.o, Const(64, s.off.c+uint64(i*es))}, s.elem).(*Term)
		if !ok || c.k != KConst {
			return nil, false
		}
		out = append(out, c.c)
	}
	return out, true
}

// ---------- CSIDH

func (a *tabAna) csidh() {
	path := "dh/csidh"
	if a.pkg(path) == nil {
		return
	}
	pr, pos, ok := a.words(path, "primes")
	if !ok {
		return
	}
	one := big.NewInt(1)
	p := big.NewInt(4)
	seen := map[uint64]bool{}
	for i, l := range pr {
		a.want(fmt.Sprintf("%s.primes[%d] is an odd prime listed once", path, i), l&1 == 1 && new(big.Int).SetUint64(l).ProbablyPrime(20) && !seen[l], pos, fmt.Sprintf("entry is %d", l))
		seen[l] = true
		p.Mul(p, new(big.Int).SetUint64(l))
	}
	p.Sub(p, one)
	a.value(path, "p", "4·∏ℓ − 1", p)
	a.want(path+": 4·∏ℓ − 1 is prime", p.ProbablyPrime(20), pos, "composite")
	a.num(path, "primeCount", "number of primes", int64(len(pr)))
	a.num(path, "pbits", "bit length of p", int64(p.BitLen()))
	a.num(path, "numWords", "words of p", int64((p.BitLen()+63)/64))
	a.num(path, "limbBitSize", "64", 64)
	a.num(path, "limbByteSize", "8", 8)
	a.num(path, "expMax", "5", 5)
	a.num(path, "PrivateKeySize", "two exponents per byte", int64((len(pr)+1)/2))
	a.num(path, "PublicKeySize", "one field element", 64)
	a.num(path, "SharedSecretSize", "one field element", 64)
	R := new(big.Int).Lsh(one, 512)
	mont := func(n int64) *big.Int {
		r := new(big.Int).Mul(big.NewInt(n), R)
		return r.Mod(r, p)
	}
	a.value(path, "one", "1·R mod p", mont(1))
	a.value(path, "two", "2·R mod p", mont(2))
	a.value(path, "twoNeg", "−2·R mod p", mont(-2))
	a.value(path, "four", "4·R mod p", mont(4))
	b64 := new(big.Int).Lsh(one, 64)
	inv := new(big.Int).ModInverse(p, b64)
	inv.Sub(b64, inv)
	if w, pos, ok := a.words(path, "pNegInv"); ok && len(w) > 0 {
		a.want(path+".pNegInv = −1/p mod 2^64", w[0] == inv.Uint64(), pos, fmt.Sprintf("value is %#x, expected %#x", w[0], inv))
	}
	h := new(big.Int).Sub(p, one)
	h.Rsh(h, 1)
	a.value(path, "pMin1By2", "(p−1)/2", h)
	a.value(path, "pMin1", "p−2, the exponent of inversion", new(big.Int).Sub(p, big.NewInt(2)))
	if w, pos, ok := a.words(path, "fourSqrtP"); ok {
		v := toBig(w)
		s := new(big.Int).Sqrt(new(big.Int).Mul(big.NewInt(16), p))
		d := new(big.Int).Sub(v, s)
		a.want(path+".fourSqrtP = 4·√p, rounded", d.Sign() >= 0 && d.Cmp(one) <= 0, pos, fmt.Sprintf("value is %#x, ⌊4√p⌋ = %#x", v, s))
	}
}

// ---------- Keccak, SM3, AES

func keccakRC() []uint64 {
	rc := make([]uint64, 24)
	lfsr := uint8(1)
	for r := range rc {
		for j := 0; j <= 6; j++ {
			if lfsr&1 == 1 {
				rc[r] |= 1 << (1<<uint(j) - 1)
			}
			hi := lfsr >> 7
			lfsr <<= 1
			if hi == 1 {
				lfsr ^= 0x71
			}
		}
	}
	return rc
}

func (a *tabAna) keccak() {
	want := keccakRC()
	if w, pos, ok := a.words("hash/sha3", "rc"); ok {
		for i := range want {
			a.want(fmt.Sprintf("hash/sha3.rc[%d] is the round constant", i), i < len(w) && w[i] == want[i] && len(w) == 24, pos, fmt.Sprintf("table %#x, expected %#x", w, want[i]))
		}
	}
}

func (a *tabAna) sm3() {
	a.num("hash/sm3", "Size", "32", 32)
	a.num("hash/sm3", "BlockSize", "64", 64)
}

func gmul(x, y int) int {
	r := 0
	for ; y > 0; y >>= 1 {
		if y&1 == 1 {
			r ^= x
		}
		x <<= 1
		if x&256 != 0 {
			x ^= 0x11b
		}
	}
	return r
}

func aesSbox() (s, inv [256]uint64) {
	for x := 0; x < 256; x++ {
		i := 0
		for y := 1; y < 256; y++ {
			if gmul(x, y) == 1 {
				i = y
			}
		}
		b := uint8(i)
		v := b ^ bits.RotateLeft8(b, 1) ^ bits.RotateLeft8(b, 2) ^ bits.RotateLeft8(b, 3) ^ bits.RotateLeft8(b, 4) ^ 0x63
		s[x] = uint64(v)
		inv[v] = uint64(x)
	}
	return
}

func (a *tabAna) aes() {
	path := "drbg/internal/aes"
	if a.pkg(path) == nil {
		return
	}
	s, si := aesSbox()
	cmp := func(name, what string, want func(i int) uint64, n int) {
		w, pos, ok := a.words(path, name)
		if !ok {
			return
		}
		bad := ""
		if len(w) != n {
			bad = fmt.Sprintf("%d entries, expected %d", len(w), n)
		}
		for i := 0; i < n && bad == ""; i++ {
			if w[i] != want(i) {
				bad = fmt.Sprintf("entry %d is %#x, expected %#x", i, w[i], want(i))
			}
		}
		a.want(path+"."+name+" is "+what, bad == "", pos, bad)
	}
	cmp("powx", "the powers of x", func(i int) uint64 {
		r := 1
		for ; i > 0; i-- {
			r = gmul(r, 2)
		}
		return uint64(r)
	}, 16)
	cmp("sbox0", "the S-box", func(i int) uint64 { return s[i] }, 256)
	cmp("sbox1", "the inverse S-box", func(i int) uint64 { return si[i] }, 256)
	col := func(v, a, b, c, d int) uint32 {
		return uint32(gmul(v, a))<<24 | uint32(gmul(v, b))<<16 | uint32(gmul(v, c))<<8 | uint32(gmul(v, d))
	}
	for k := 0; k < 4; k++ {
		k := k
		cmp(fmt.Sprintf("te%d", k), "S-box and MixColumns", func(i int) uint64 { return uint64(bits.RotateLeft32(col(int(s[i]), 2, 1, 1, 3), -8*k)) }, 256)
		cmp(fmt.Sprintf("td%d", k), "inverse S-box and inverse MixColumns", func(i int) uint64 { return uint64(bits.RotateLeft32(col(int(si[i]), 14, 9, 13, 11), -8*k)) }, 256)
	}
}
