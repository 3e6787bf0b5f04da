package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Integer polynomials with dyadic coefficients over bounded integer atoms: the
// value of sum(coef * product of atoms) / 2^sh.

type npoly struct {
	m  map[string]*big.Int
	sh uint
}

type natom struct {
	id     uint16
	lo, hi *big.Int
	name   string
	exact  *npoly // equal to the atom, or nil
	def    *npoly // congruent to the atom modulo 2^64, or nil
}

func nconst(v *big.Int) *npoly {
	p := &npoly{m: map[string]*big.Int{}}
	if v.Sign() != 0 {
		p.m[""] = new(big.Int).Set(v)
	}
	return p
}

func nint(k int64) *npoly { return nconst(big.NewInt(k)) }

func nvar(id uint16) *npoly {
	return &npoly{m: map[string]*big.Int{string([]byte{byte(id >> 8), byte(id)}): big.NewInt(1)}}
}

func (p *npoly) clone() *npoly {
	q := &npoly{m: make(map[string]*big.Int, len(p.m)), sh: p.sh}
	for k, v := range p.m {
		q.m[k] = v // coefficients are never changed in place
	}
	return q
}

// addScaled gives p + k*2^e*q.
func (p *npoly) addScaled(q *npoly, k *big.Int, e int) *npoly {
	// common denominator
	sh := int(p.sh)
	qs := int(q.sh) - e
	if qs > sh {
		sh = qs
	}
	if sh < 0 {
		sh = 0
	}
	r := &npoly{m: make(map[string]*big.Int, len(p.m)+len(q.m)), sh: uint(sh)}
	up := uint(sh - int(p.sh))
	for key, v := range p.m {
		if up == 0 {
			r.m[key] = v
		} else {
			r.m[key] = new(big.Int).Lsh(v, up)
		}
	}
	uq := uint(sh - qs)
	for key, v := range q.m {
		t := new(big.Int).Mul(v, k)
		t.Lsh(t, uq)
		if o, ok := r.m[key]; ok {
			t.Add(t, o)
			if t.Sign() == 0 {
				delete(r.m, key)
				continue
			}
		} else if t.Sign() == 0 {
			continue
		}
		r.m[key] = t
	}
	return r.trim()
}

func (p *npoly) trim() *npoly {
	if p.sh == 0 {
		return p
	}
	min := p.sh
	for _, v := range p.m {
		if t := v.TrailingZeroBits(); t < min {
			min = t
			if min == 0 {
				return p
			}
		}
	}
	if len(p.m) == 0 {
		p.sh = 0
		return p
	}
	for k, v := range p.m {
		p.m[k] = new(big.Int).Rsh(v, min)
	}
	p.sh -= min
	return p
}

var bNeg = big.NewInt(-1)

func (p *npoly) add(q *npoly) *npoly { return p.addScaled(q, bOne, 0) }
func (p *npoly) sub(q *npoly) *npoly { return p.addScaled(q, bNeg, 0) }
func (p *npoly) shl(e int) *npoly    { return nint(0).addScaled(p, bOne, e) }
func (p *npoly) scale(k *big.Int) *npoly {
	return nint(0).addScaled(p, k, 0)
}

func nmulKey(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	out := make([]byte, 0, len(a)+len(b))
	for len(a) > 0 && len(b) > 0 {
		if a[:2] <= b[:2] {
			out = append(out, a[:2]...)
			a = a[2:]
		} else {
			out = append(out, b[:2]...)
			b = b[2:]
		}
	}
	out = append(out, a...)
	return string(append(out, b...))
}

func (p *npoly) mul(q *npoly) *npoly {
	r := &npoly{m: map[string]*big.Int{}, sh: p.sh + q.sh}
	for a, x := range p.m {
		for b, y := range q.m {
			k := nmulKey(a, b)
			t := new(big.Int).Mul(x, y)
			if o, ok := r.m[k]; ok {
				t.Add(t, o)
			}
			r.m[k] = t
		}
	}
	for k, v := range r.m {
		if v.Sign() == 0 {
			delete(r.m, k)
		}
	}
	return r.trim()
}

func (p *npoly) isConst() (*big.Int, bool) {
	switch len(p.m) {
	case 0:
		return new(big.Int), true
	case 1:
		if v, ok := p.m[""]; ok && p.sh == 0 {
			return v, true
		}
	}
	return nil, false
}

// single reports that p is exactly one atom.
func (p *npoly) single() (uint16, bool) {
	if len(p.m) != 1 || p.sh != 0 {
		return 0, false
	}
	for k, v := range p.m {
		if len(k) == 2 && v.Cmp(bOne) == 0 {
			return uint16(k[0])<<8 | uint16(k[1]), true
		}
	}
	return 0, false
}

func (p *npoly) has(id uint16) bool {
	s := string([]byte{byte(id >> 8), byte(id)})
	for k := range p.m {
		for i := 0; i < len(k); i += 2 {
			if k[i:i+2] == s {
				return true
			}
		}
	}
	return false
}

// subst replaces the atom by q everywhere.
func (p *npoly) subst(id uint16, q *npoly) *npoly {
	s := string([]byte{byte(id >> 8), byte(id)})
	rest := &npoly{m: map[string]*big.Int{}, sh: p.sh}
	by := map[int]*npoly{} // degree in the atom -> cofactor
	for k, v := range p.m {
		n := 0
		var o []byte
		for i := 0; i < len(k); i += 2 {
			if k[i:i+2] == s {
				n++
			} else {
				o = append(o, k[i:i+2]...)
			}
		}
		if n == 0 {
			rest.m[k] = v
			continue
		}
		if by[n] == nil {
			by[n] = &npoly{m: map[string]*big.Int{}, sh: p.sh}
		}
		by[n].m[string(o)] = v
	}
	if len(by) == 0 {
		return p
	}
	r := rest
	for n, c := range by {
		t := c
		for i := 0; i < n; i++ {
			t = t.mul(q)
		}
		r = r.add(t)
	}
	return r.clone().trim()
}

// divisible reports that every coefficient is zero modulo the odd number m.
func (p *npoly) divisible(m *big.Int) bool {
	t := new(big.Int)
	for _, v := range p.m {
		if t.Mod(v, m).Sign() != 0 {
			return false
		}
	}
	return true
}

var maxTerms = 6

func (p *npoly) str(atoms []*natom) string {
	var ks []string
	for k := range p.m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b []string
	for i, k := range ks {
		if i == maxTerms {
			b = append(b, fmt.Sprintf("… (%d terms)", len(ks)))
			break
		}
		s := p.m[k].Text(16)
		for j := 0; j < len(k); j += 2 {
			s += "*" + atoms[uint16(k[j])<<8|uint16(k[j+1])].name
		}
		b = append(b, s)
	}
	if len(b) == 0 {
		return "0"
	}
	s := strings.Join(b, " + ")
	if p.sh > 0 {
		s = fmt.Sprintf("(%s) / 2^%d", s, p.sh)
	}
	return s
}
