package main

// Mode "counts": only trip counts are of interest. Loops with an unknown trip
// count are followed for the first iterations (verifrt.Cut); contents may become
// unknown without consequence and panics are other properties' business. An
// assertion that is not decided by the conditions of the paths alone fails only
// if one of the conditions' boundary values satisfies its violation exactly.

// termVal evaluates t with every symbol named name bound to x.
func termVal(t *Term, name string, x uint64, memo map[*Term]uint64) (uint64, bool) {
	if v, ok := memo[t]; ok {
		return v, true
	}
	ev := func(t *Term) (uint64, bool) { return termVal(t, name, x, memo) }
	var r uint64
	switch t.k {
	case KConst:
		return t.c, true
	case KSym:
		if t.name != name {
			return 0, false
		}
		r = x
	case KITE:
		g := t.v.grp
		c, ok := ev(g.t)
		b := c&1 != 0
		if !ok {
			if mentions(g.t, name, map[*Term]bool{}) {
				return 0, false
			}
			b = freely // independent of the count
		} else if g.isGe {
			b = sgn(&Term{c: c & full(g.t.w), w: g.t.w}) >= t.v.c
		} else if g.t.k == KApp && (g.t.name == "nz" || g.t.name == "bit") {
			b = c != 0
		}
		n := t.lo
		if b {
			n = t.hi
		}
		if r, ok = ev(n); !ok {
			return 0, false
		}
	case KLin:
		r = t.c
		for _, l := range t.lin {
			v, ok := ev(l.t)
			if !ok {
				return 0, false
			}
			r += uint64(l.k) * v
		}
	case KBV:
		for _, m := range t.ms {
			v := m.mask
			for _, f := range m.fs {
				y, ok := ev(f.t)
				if !ok {
					return 0, false
				}
				if f.sh >= 0 {
					v &= y << uint(f.sh)
				} else {
					v &= y >> uint(-f.sh)
				}
			}
			r ^= v
		}
	case KApp:
		var a [2]uint64
		if len(t.args) > 2 || len(t.args) == 0 {
			return 0, false
		}
		for i, y := range t.args {
			var ok bool
			if a[i], ok = ev(y); !ok {
				return 0, false
			}
		}
		w := t.args[0].w
		s := func(i int) int64 { return sgn(&Term{c: a[i] & full(w), w: w}) }
		bit := func(b bool) uint64 {
			if b {
				return 1
			}
			return 0
		}
		switch t.name {
		case "nz":
			r = bit(a[0] != 0)
		case "bit":
			r = a[0] >> a[1] & 1
		case "and":
			r = a[0] & a[1]
		case "mul":
			r = a[0] * a[1]
		case "slt":
			r = bit(s(0) < s(1))
		case "ult":
			r = bit(a[0] < a[1])
		case "sext":
			r = uint64(s(0))
		case "/", "%":
			if s(1) <= 0 || s(0) < 0 {
				return 0, false
			}
			if t.name == "/" {
				r = a[0] / a[1]
			} else {
				r = a[0] % a[1]
			}
		default:
			return 0, false
		}
	default:
		return 0, false
	}
	r &= full(t.w)
	memo[t] = r
	return r, true
}

var freely bool // what conditions independent of the count are taken as

func mentions(t *Term, name string, seen map[*Term]bool) bool {
	if seen[t] {
		return false
	}
	seen[t] = true
	switch t.k {
	case KSym:
		return t.name == name
	case KITE:
		return mentions(t.v.grp.t, name, seen) || mentions(t.hi, name, seen) || mentions(t.lo, name, seen)
	}
	for _, l := range t.lin {
		if mentions(l.t, name, seen) {
			return true
		}
	}
	for _, m := range t.ms {
		for _, f := range m.fs {
			if mentions(f.t, name, seen) {
				return true
			}
		}
	}
	for _, a := range t.args {
		if mentions(a, name, seen) {
			return true
		}
	}
	return false
}

// countWitness is a value of the count symbol at which fail certainly holds.
func countWitness(fail *Term, name string, hi uint64) (uint64, bool) {
	for e := uint(0); e < 63 && uint64(1)<<e <= hi; e++ {
		for d := int64(-2); d <= 3; d++ {
			x := uint64(int64(1)<<e + d)
			if x > hi {
				continue
			}
			for _, freely = range []bool{false, true} {
				if v, ok := termVal(fail, name, x, map[*Term]uint64{}); ok && v != 0 {
					return x, true
				}
			}
		}
	}
	return 0, false
}
