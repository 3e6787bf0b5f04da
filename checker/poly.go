package main

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Field elements as quotients of polynomials in canonical form. A polynomial
// has coefficients in GF(p) or GF(p^2) = GF(p)(i); its variables are the
// field elements whose value the analysis does not know.

type coef struct{ re, im *big.Int }

type polyTerm struct {
	key string // sorted (atom, exponent) pairs, 4 bytes each
	c   coef
}

type poly []polyTerm // sorted by key, no zero coefficients

type felem struct {
	id       int
	num, den poly
	base     *felem   // power form: base^exp
	exp      *big.Int // nil unless power form
	rb       *felem   // this element was computed as rb^re
	re       *big.Int
}

type field struct {
	name    string
	p       *big.Int
	words   int // words of a prime field element
	stride  int // words between the two parts of an extension element
	ext     bool
	rinv    *big.Int // constants are multiplied by this on load
	r       *big.Int // and by this on store
	byKey   map[string]*felem
	list    []*felem
	atoms   map[string]int
	atomStr []string
	label   map[string]string
	tooBig  bool
}

const maxPoly = 200000

func newField(name string, p *big.Int, words, stride int, ext, mont bool) *field {
	f := &field{name: name, p: p, words: words, stride: stride, ext: ext, byKey: map[string]*felem{}, atoms: map[string]int{}, label: map[string]string{}}
	f.r, f.rinv = big.NewInt(1), big.NewInt(1)
	if mont {
		f.r = new(big.Int).Lsh(big.NewInt(1), uint(64*words))
		f.r.Mod(f.r, p)
		f.rinv = new(big.Int).ModInverse(f.r, p)
	}
	return f
}

func (f *field) mod(x *big.Int) *big.Int { return x.Mod(x, f.p) }

func (f *field) cadd(a, b coef) coef {
	return coef{f.mod(new(big.Int).Add(a.re, b.re)), f.mod(new(big.Int).Add(a.im, b.im))}
}
func (f *field) cneg(a coef) coef {
	return coef{f.mod(new(big.Int).Neg(a.re)), f.mod(new(big.Int).Neg(a.im))}
}
func (f *field) cmul(a, b coef) coef {
	if a.im.Sign() == 0 && b.im.Sign() == 0 {
		return coef{f.mod(new(big.Int).Mul(a.re, b.re)), new(big.Int)}
	}
	re := new(big.Int).Sub(new(big.Int).Mul(a.re, b.re), new(big.Int).Mul(a.im, b.im))
	im := new(big.Int).Add(new(big.Int).Mul(a.re, b.im), new(big.Int).Mul(a.im, b.re))
	return coef{f.mod(re), f.mod(im)}
}
func (f *field) cinv(a coef) coef {
	n := new(big.Int).Add(new(big.Int).Mul(a.re, a.re), new(big.Int).Mul(a.im, a.im))
	n.ModInverse(f.mod(n), f.p)
	return coef{f.mod(new(big.Int).Mul(a.re, n)), f.mod(new(big.Int).Neg(new(big.Int).Mul(a.im, n)))}
}
func (a coef) zero() bool { return a.re.Sign() == 0 && a.im.Sign() == 0 }

func (f *field) constPoly(re, im *big.Int) poly {
	c := coef{f.mod(new(big.Int).Set(re)), f.mod(new(big.Int).Set(im))}
	if c.zero() {
		return nil
	}
	return poly{{"", c}}
}

var bigOne, bigZero = big.NewInt(1), new(big.Int)

func (f *field) one() poly { return f.constPoly(bigOne, bigZero) }

func (p poly) isConst() bool { return len(p) == 0 || len(p) == 1 && p[0].key == "" }

func (f *field) padd(a, b poly, neg bool) poly {
	var out poly
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || i < len(a) && a[i].key < b[j].key:
			out = append(out, a[i])
			i++
		case i == len(a) || b[j].key < a[i].key:
			c := b[j].c
			if neg {
				c = f.cneg(c)
			}
			out = append(out, polyTerm{b[j].key, c})
			j++
		default:
			c := b[j].c
			if neg {
				c = f.cneg(c)
			}
			if c = f.cadd(a[i].c, c); !c.zero() {
				out = append(out, polyTerm{a[i].key, c})
			}
			i++
			j++
		}
	}
	return out
}

func mulKey(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	for a != "" || b != "" {
		switch {
		case b == "" || a != "" && a[:4] < b[:4]:
			out = append(out, a[:8]...)
			a = a[8:]
		case a == "" || b[:4] < a[:4]:
			out = append(out, b[:8]...)
			b = b[8:]
		default:
			e := binary.BigEndian.Uint32([]byte(a[4:8])) + binary.BigEndian.Uint32([]byte(b[4:8]))
			out = append(out, a[:4]...)
			out = binary.BigEndian.AppendUint32(out, e)
			a, b = a[8:], b[8:]
		}
	}
	return string(out)
}

func (f *field) pmul(a, b poly) poly {
	if len(a) == 0 || len(b) == 0 {
		return nil
	}
	if len(a) == 1 && a[0].key == "" || len(b) == 1 && b[0].key == "" {
		if len(a) != 1 || a[0].key != "" {
			a, b = b, a
		}
		out := make(poly, len(b))
		for i, t := range b {
			out[i] = polyTerm{t.key, f.cmul(a[0].c, t.c)}
		}
		return out
	}
	if len(a)*len(b) > 40000000 {
		f.tooBig = true
		return f.one()
	}
	acc := map[string]coef{}
	for _, x := range a {
		for _, y := range b {
			k := mulKey(x.key, y.key)
			v := f.cmul(x.c, y.c)
			if o, ok := acc[k]; ok {
				v = f.cadd(o, v)
			}
			acc[k] = v
		}
	}
	out := make(poly, 0, len(acc))
	for k, c := range acc {
		if !c.zero() {
			out = append(out, polyTerm{k, c})
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].key < out[j].key })
	if len(out) > maxPoly {
		f.tooBig = true
		return f.one()
	}
	return out
}

func peq(a, b poly) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].key != b[i].key || a[i].c.re.Cmp(b[i].c.re) != 0 || a[i].c.im.Cmp(b[i].c.im) != 0 {
			return false
		}
	}
	return true
}

func (p poly) str() string {
	var sb strings.Builder
	for _, t := range p {
		sb.WriteString(t.key)
		sb.WriteByte('|')
		sb.WriteString(t.c.re.Text(62))
		sb.WriteByte(',')
		sb.WriteString(t.c.im.Text(62))
		sb.WriteByte(';')
	}
	return sb.String()
}

// elem interns num/den.
func (f *field) elem(num, den poly) *felem {
	if len(num) == 0 {
		den = f.one()
	} else if peq(num, den) {
		num, den = f.one(), f.one()
	}
	if len(den) > 0 { // leading coefficient one
		if c := den[len(den)-1].c; c.re.Cmp(bigOne) != 0 || c.im.Sign() != 0 {
			k := poly{{"", f.cinv(c)}}
			num, den = f.pmul(k, num), f.pmul(k, den)
		}
	}
	key := num.str() + "/" + den.str()
	if e, ok := f.byKey[key]; ok {
		return e
	}
	e := &felem{id: len(f.list), num: num, den: den}
	f.list = append(f.list, e)
	f.byKey[key] = e
	return e
}

func (f *field) fconst(re, im *big.Int) *felem { return f.elem(f.constPoly(re, im), f.one()) }

func (f *field) atom(name string) *felem {
	i, ok := f.atoms[name]
	if !ok {
		i = len(f.atomStr)
		f.atoms[name] = i
		f.atomStr = append(f.atomStr, name)
	}
	k := binary.BigEndian.AppendUint32(nil, uint32(i))
	k = binary.BigEndian.AppendUint32(k, 1)
	return f.elem(poly{{string(k), coef{bigOne, bigZero}}}, f.one())
}

const expandBelow = 24

func (f *field) power(base *felem, e *big.Int) *felem {
	pm1 := new(big.Int).Sub(f.p, bigOne)
	if !f.ext && e.Cmp(pm1) >= 0 {
		e = new(big.Int).Mod(e, pm1) // base is taken to be non-zero
	}
	if !f.ext && new(big.Int).Sub(f.p, big.NewInt(2)).Cmp(e) == 0 {
		return f.inv(base)
	}
	if e.Sign() == 0 {
		return f.elem(f.one(), f.one())
	}
	if base.exp == nil && base.num.isConst() && base.den.isConst() && !f.ext {
		// a known number
		n, d := new(big.Int), base.den[0].c.re
		if len(base.num) > 0 {
			n = base.num[0].c.re
		}
		n = f.mod(new(big.Int).Mul(n, new(big.Int).ModInverse(d, f.p)))
		return f.fconst(new(big.Int).Exp(n, e, f.p), bigZero)
	}
	if e.BitLen() <= 16 && e.Int64() <= expandBelow {
		r := f.elem(f.one(), f.one())
		for i := int64(0); i < e.Int64(); i++ {
			r = f.mul0(r, base)
		}
		if r.rb == nil && r != base {
			r.rb, r.re = base, e
		}
		return r
	}
	key := fmt.Sprintf("pow %d %s", base.id, e.Text(62))
	if x, ok := f.byKey[key]; ok {
		return x
	}
	x := &felem{id: len(f.list), base: base, exp: e}
	f.list = append(f.list, x)
	f.byKey[key] = x
	return x
}

// opaque turns a power into a variable.
func (f *field) opaque(x *felem) *felem {
	if x.exp == nil {
		return x
	}
	return f.atom(fmt.Sprintf("pow#%d", x.id))
}

func (f *field) mul0(a, b *felem) *felem {
	return f.elem(f.pmul(a.num, b.num), f.pmul(a.den, b.den))
}

func (f *field) mul(a, b *felem) *felem {
	one := f.elem(f.one(), f.one())
	if a == one {
		return b
	}
	if b == one {
		return a
	}
	if a.exp == nil && len(a.num) == 0 {
		return a
	}
	if b.exp == nil && len(b.num) == 0 {
		return b
	}
	ba, ea := f.root(a)
	bb, eb := f.root(b)
	if ba == bb {
		e := new(big.Int).Add(ea, eb)
		if a.exp != nil || b.exp != nil || !e.IsInt64() || e.Int64() > expandBelow {
			return f.power(ba, e)
		}
		r := f.mul0(a, b)
		if r.rb == nil && r != ba {
			r.rb, r.re = ba, e
		}
		return r
	}
	return f.mul0(f.opaque(a), f.opaque(b))
}

func (f *field) degree(p poly) int {
	d := 0
	for _, t := range p {
		n := 0
		for k := t.key; k != ""; k = k[8:] {
			n += int(binary.BigEndian.Uint32([]byte(k[4:8])))
		}
		if n > d {
			d = n
		}
	}
	return d
}

// root writes a as a power.
func (f *field) root(a *felem) (*felem, *big.Int) {
	if a.exp != nil {
		return a.base, a.exp
	}
	if a.rb != nil {
		return a.rb, a.re
	}
	return a, bigOne
}

func (f *field) add(a, b *felem, neg bool) *felem {
	a, b = f.opaque(a), f.opaque(b)
	if peq(a.den, b.den) {
		return f.elem(f.padd(a.num, b.num, neg), a.den)
	}
	return f.elem(f.padd(f.pmul(a.num, b.den), f.pmul(b.num, a.den), neg), f.pmul(a.den, b.den))
}

func (f *field) inv(a *felem) *felem {
	a = f.opaque(a)
	if len(a.num) == 0 {
		return a // 0^(p-2) = 0
	}
	return f.elem(a.den, a.num)
}

func (f *field) equal(a, b *felem) bool {
	if a == b {
		return true
	}
	if a.exp != nil || b.exp != nil {
		return false
	}
	return peq(f.pmul(a.num, b.den), f.pmul(b.num, a.den)) && !f.tooBig
}

// ---------- field elements in memory

// A double-width operand w stands for w/R^2, so that products of Montgomery
// forms and their reductions have the value of the field product.
const (
	single = iota
	double
)

var tagOf = [...]string{"fe:", "fd:"}

// load reads the element held by ws. An element with unknown words is the
// variable named by its words.
func (f *field) load(ws []*Term, kind int) *felem {
	tag := tagOf[kind] + f.name
	allConst, same := true, true
	var id *Term
	for i, t := range ws {
		if t.k != KConst {
			allConst = false
		}
		if t.k == KApp && t.name == tag && int(t.args[1].c) == i && (id == nil || id == t.args[0]) {
			id = t.args[0]
		} else {
			same = false
		}
	}
	if same && id != nil {
		return f.list[id.c]
	}
	if allConst {
		n := len(ws)
		if f.ext {
			n /= 2
		}
		re, im := wordsToBig(ws[:n]), wordsToBig(ws[n:])
		for k := 0; k <= kind; k++ {
			re = f.mod(re.Mul(re, f.rinv))
			im = f.mod(im.Mul(im, f.rinv))
		}
		return f.fconst(re, im)
	}
	if kind == double {
		// a reduced element, zero extended
		hi := true
		for _, t := range ws[f.words:] {
			hi = hi && t.k == KConst && t.c == 0
		}
		if hi {
			return f.mul(f.load(ws[:f.words], single), f.fconst(f.rinv, bigZero))
		}
	}
	var sb strings.Builder
	for _, t := range ws {
		fmt.Fprintf(&sb, "%d.", t.id)
	}
	sb.WriteString(tag)
	nm := sb.String()
	if _, ok := f.atoms[nm]; !ok {
		f.label[nm] = ws[0].String()
	}
	x := f.atom(nm)
	if kind == double {
		x = f.mul(x, f.mul(f.fconst(f.rinv, bigZero), f.fconst(f.rinv, bigZero)))
	}
	return x
}

func wordsToBig(ws []*Term) *big.Int {
	x := new(big.Int)
	for i := len(ws) - 1; i >= 0; i-- {
		x.Lsh(x, 64)
		x.Add(x, new(big.Int).SetUint64(ws[i].c))
	}
	return x
}

func bigToWords(x *big.Int, n int) []*Term {
	out := make([]*Term, n)
	m := new(big.Int).SetUint64(^uint64(0))
	x = new(big.Int).Set(x)
	for i := range out {
		out[i] = Const(64, new(big.Int).And(x, m).Uint64())
		x.Rsh(x, 64)
	}
	return out
}

// store is the memory form of e: canonical words for a constant.
func (f *field) store(e *felem, kind int) []*Term {
	n := f.words * (kind + 1)
	if f.ext {
		n *= 2
	}
	if kind == single && e.exp == nil && e.num.isConst() && e.den.isConst() {
		re, im := new(big.Int), new(big.Int)
		if len(e.num) == 1 {
			re = f.mod(new(big.Int).Mul(e.num[0].c.re, f.r))
			im = f.mod(new(big.Int).Mul(e.num[0].c.im, f.r))
		}
		out := bigToWords(re, f.words)
		if f.ext {
			out = append(out, bigToWords(im, f.words)...)
		}
		return out
	}
	out := make([]*Term, n)
	for i := range out {
		out[i] = App(64, tagOf[kind]+f.name, Const(64, uint64(e.id)), Const(64, uint64(i)))
	}
	return out
}

func (f *field) String(e *felem) string {
	if e.exp != nil {
		return fmt.Sprintf("(%s)^%s", f.String(e.base), e.exp.Text(16))
	}
	show := func(p poly) string {
		if len(p) == 0 {
			return "0"
		}
		var parts []string
		for i, t := range p {
			if i == 6 {
				parts = append(parts, fmt.Sprintf("… (%d terms)", len(p)))
				break
			}
			s := ""
			if t.key == "" || t.c.re.Cmp(bigOne) != 0 || t.c.im.Sign() != 0 {
				re := t.c.re
				if n := new(big.Int).Sub(f.p, re); n.BitLen() < re.BitLen() {
					re = n.Neg(n)
				}
				s = re.Text(10)
				if len(s) > 12 {
					s = s[:9] + "…"
				}
				if t.c.im.Sign() != 0 {
					s = "(" + s + "+…i)"
				}
			}
			for k := t.key; k != ""; k = k[8:] {
				a := f.atomStr[binary.BigEndian.Uint32([]byte(k[:4]))]
				if l := f.label[a]; l != "" {
					a = l
				}
				if len(a) > 24 {
					a = a[:24]
				}
				s += fmt.Sprintf("<%s>", a)
				if e := binary.BigEndian.Uint32([]byte(k[4:8])); e != 1 {
					s += fmt.Sprintf("^%d", e)
				}
			}
			parts = append(parts, s)
		}
		return strings.Join(parts, " + ")
	}
	s := show(e.num)
	if !peq(e.den, f.one()) {
		s = "(" + s + ") / (" + show(e.den) + ")"
	}
	return s
}
