package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"regexp"
	"strings"
)

// Mode "prim": exact word-level analysis of the symmetric primitives. Words are
// xors of masked products of shifted words (algebraic normal form), sums are
// opaque words, lookups in tables that are a GF(2)-linear map of the AES S-box
// or of its inverse are expressed by that map, and named words (verifrt.Name)
// are abbreviated wherever they are recomputed.

var abbrev map[*Term]*Term // word without its constant part -> its name
var abbrevN int

func nameWord(t *Term) *Term {
	t0, c := splitConst(t)
	if t0.k == KConst {
		return t
	}
	if a, ok := abbrev[t0]; ok {
		return Xor(a, Const(t.w, c))
	}
	if abbrev == nil {
		abbrev = map[*Term]*Term{}
	}
	abbrevN++
	a := Sym(t.w, fmt.Sprintf("word%d", abbrevN))
	abbrev[t0] = a
	return Xor(a, Const(t.w, c))
}

func splitConst(t *Term) (*Term, uint64) {
	if t.k != KBV || len(t.ms) == 0 || len(t.ms[0].fs) != 0 {
		return t, 0
	}
	return mkBV0(t.w, t.ms[1:]), t.ms[0].mask
}

func gfMul(a, b byte) byte {
	var r byte
	for ; b != 0; b >>= 1 {
		if b&1 != 0 {
			r ^= a
		}
		h := a >> 7
		a = a << 1
		if h != 0 {
			a ^= 0x1b
		}
	}
	return r
}

var aesS, aesSI = func() (s, si [256]byte) {
	for i := 0; i < 256; i++ {
		x := byte(0)
		for j := 1; j < 256 && i != 0; j++ {
			if gfMul(byte(i), byte(j)) == 1 {
				x = byte(j)
			}
		}
		y := x ^ bits.RotateLeft8(x, 1) ^ bits.RotateLeft8(x, 2) ^ bits.RotateLeft8(x, 3) ^ bits.RotateLeft8(x, 4) ^ 0x63
		s[i] = y
		si[y] = byte(i)
	}
	return
}()

// linearTable expresses a 256-entry table as L(S(i)) + c or L(S^-1(i)) + c.
func linearTable(tab []uint64, idx *Term, w uint8) *Term {
	if len(tab) != 256 {
		return nil
	}
	i8 := Trunc(idx, 8)
	for _, box := range []struct {
		name    string
		s, back *[256]byte
	}{{"aes.sbox", &aesS, &aesSI}, {"aes.invsbox", &aesSI, &aesS}} {
		c := tab[box.back[0]]
		var col [8]uint64
		for k := range col {
			col[k] = tab[box.back[1<<k]] ^ c
		}
		ok := true
		for i := 0; i < 256 && ok; i++ {
			v := c
			for k := range col {
				if box.s[i]>>k&1 != 0 {
					v ^= col[k]
				}
			}
			ok = v == tab[i]
		}
		if !ok {
			continue
		}
		return Xor(linearMap(sboxOf(box.name, i8), col, w), Const(w, c))
	}
	return nil
}

// sboxOf applies the S-box to a byte; inverse boxes cancel.
func sboxOf(name string, x *Term) *Term {
	return mapLeaves(x, func(x *Term) *Term {
		if x.k == KConst {
			if name == "aes.sbox" {
				return Const(8, uint64(aesS[x.c]))
			}
			return Const(8, uint64(aesSI[x.c]))
		}
		if x.k == KApp && len(x.args) == 1 && (x.name == "aes.sbox" && name == "aes.invsbox" || x.name == "aes.invsbox" && name == "aes.sbox") {
			return x.args[0]
		}
		return App(8, name, x)
	})
}

// linearMap is the xor of col[k] over the bits k set in the byte x.
func linearMap(x *Term, col [8]uint64, w uint8) *Term {
	return mapLeaves(x, func(x *Term) *Term {
		wide := Zext(x, w)
		// collect the bits moved by the same distance
		mask := map[int]uint64{}
		for k := range col {
			for j := 0; j < int(w); j++ {
				if col[k]>>j&1 != 0 {
					mask[j-k] |= 1 << j
				}
			}
		}
		r := Const(w, 0)
		for d := -8; d < 64; d++ {
			m := mask[d]
			if m == 0 {
				continue
			}
			t := wide
			if d > 0 {
				t = Shl(wide, uint(d))
			} else if d < 0 {
				t = Shr(wide, uint(-d))
			}
			r = Xor(r, BAnd(t, Const(w, m)))
		}
		return r
	})
}

func gfCols(f byte) (col [8]uint64) {
	for k := range col {
		col[k] = uint64(gfMul(1<<k, f))
	}
	return
}

func mixColumn(b [4]*Term, f [4]byte) (o [4]*Term) {
	for i := range o {
		r := Const(8, 0)
		for j := range b {
			r = Xor(r, linearMap(b[j], gfCols(f[(j-i+4)%4]), 8))
		}
		o[i] = r
	}
	return
}

type block [16]*Term

func (b block) mix(f [4]byte) (o block) {
	for c := 0; c < 16; c += 4 {
		m := mixColumn([4]*Term{b[c], b[c+1], b[c+2], b[c+3]}, f)
		copy(o[c:], m[:])
	}
	return
}

func (b block) sub(name string) (o block) {
	for i := range b {
		o[i] = sboxOf(name, b[i])
	}
	return
}

func (b block) shift(dir int) (o block) {
	for c := 0; c < 4; c++ {
		for r := 0; r < 4; r++ {
			o[4*c+r] = b[4*((c+dir*r+4)%4)+r]
		}
	}
	return
}

func (b block) xor(k block) (o block) {
	for i := range b {
		o[i] = Xor(b[i], k[i])
	}
	return
}

func toBlock(v vec) (b block) {
	for i := range b {
		b[i] = Trunc(Shr(v[i/8], uint(8*(i%8))), 8)
	}
	return
}

func (b block) vec() (v vec) {
	for h := range v {
		t := Const(64, 0)
		for i := 0; i < 8; i++ {
			t = Xor(t, Shl(Zext(b[8*h+i], 64), uint(8*i)))
		}
		v[h] = t
	}
	return
}

var mixF, mixI = [4]byte{2, 3, 1, 1}, [4]byte{14, 11, 13, 9}

// aesInst interprets the AES instructions of amd64.
func (r *asmRun) aesInst(i *asmInst) bool {
	a := i.args
	switch i.op {
	case "AESENC", "AESENCLAST", "AESDEC", "AESDECLAST":
		k, s := toBlock(r.getVec(a[0])), toBlock(r.getVec(a[1]))
		switch i.op {
		case "AESENC":
			s = s.shift(1).sub("aes.sbox").mix(mixF)
		case "AESENCLAST":
			s = s.shift(1).sub("aes.sbox")
		case "AESDEC":
			s = s.shift(-1).sub("aes.invsbox").mix(mixI)
		case "AESDECLAST":
			s = s.shift(-1).sub("aes.invsbox")
		}
		r.putVec(a[1], s.xor(k).vec())
	case "AESIMC":
		r.putVec(a[1], toBlock(r.getVec(a[0])).mix(mixI).vec())
	case "AESKEYGENASSIST":
		s := toBlock(r.getVec(a[1]))
		t := s.sub("aes.sbox")
		var o block
		rc := Const(8, a[0].imm&0xff)
		for h := 0; h < 2; h++ {
			x := t[8*h+4 : 8*h+8]
			copy(o[8*h:], []*Term{x[0], x[1], x[2], x[3]})
			copy(o[8*h+4:], []*Term{Xor(x[1], rc), x[2], x[3], x[0]})
		}
		r.putVec(a[2], o.vec())
	case "SHUFPS":
		src, dst := r.getVec(a[1]), r.getVec(a[2])
		d := func(x vec, k uint64) *Term {
			return BAnd(Shr(x[k>>1], uint(32*(k&1))), Const(64, 0xffffffff))
		}
		s := a[0].imm
		r.putVec(a[2], vec{
			Xor(d(dst, s&3), Shl(d(dst, s>>2&3), 32)),
			Xor(d(src, s>>4&3), Shl(d(src, s>>6&3), 32)),
		})
	case "PSLLDQ", "PSLLO":
		n := int(a[0].imm)
		s := toBlock(r.getVec(a[1]))
		var o block
		for k := range o {
			o[k] = Const(8, 0)
			if k >= n {
				o[k] = s[k-n]
			}
		}
		r.putVec(a[1], o.vec())
	default:
		return false
	}
	return true
}

var vecListRe = regexp.MustCompile(`^\[(V\d+)\.B16(?:,\s*(V\d+)\.B16)*\]$`)
var vecNameRe = regexp.MustCompile(`V\d+`)
var vecLaneRe = regexp.MustCompile(`^(V\d+)\.(S|D)\[(\d)\]$`)

// vecOf is the content of an arm64 vector register.
func (r *asmRun) vecOf(name string) vec {
	v, ok := r.reg[name].(vec)
	if !ok {
		return vec{Sym(64, "asm:"+name), Sym(64, "asm:"+name+"'")}
	}
	return v
}

func wordAt(v vec, k uint64) *Term {
	return BAnd(Shr(v[k>>1], uint(32*(k&1))), Const(64, 0xffffffff))
}

// primArm64 interprets the vector, AES and 32-bit instructions of the arm64
// AES code.
func (r *asmRun) primArm64(i *asmInst) bool {
	a := i.args
	low := func(t *Term) *Term { return BAnd(t, Const(64, 0xffffffff)) }
	post := func(o asmOp) Ptr { // address; the register moves on afterwards
		p, ok := r.reg[o.reg].(Ptr)
		if !ok || o.index != "" {
			r.stop("address in %s is not known", o.reg)
		}
		q := Ptr{p.o, Add(p.off, Const(64, uint64(o.off)))}
		if strings.HasSuffix(i.op, ".P") {
			r.reg[o.reg] = q
			return p
		}
		return q
	}
	u32 := types.Typ[types.Uint32]
	at := func(p Ptr, d int) Ptr { return Ptr{p.o, Add(p.off, Const(64, uint64(d)))} }
	switch i.op {
	case "VLD1", "VLD1.P", "VST1", "VST1.P":
		st := i.op[1] == 'S'
		mem, list := a[0], a[1]
		if st {
			mem, list = a[1], a[0]
		}
		if !vecListRe.MatchString(list.text) {
			return false
		}
		p := post(mem)
		for n, v := range vecNameRe.FindAllString(list.text, -1) {
			if st {
				x := r.vecOf(v)
				r.in.store(r.st, at(p, 16*n), u64T, x[0], True)
				r.in.store(r.st, at(p, 16*n+8), u64T, x[1], True)
				continue
			}
			x, ok1 := r.in.load(r.st, at(p, 16*n), u64T).(*Term)
			y, ok2 := r.in.load(r.st, at(p, 16*n+8), u64T).(*Term)
			if !ok1 || !ok2 {
				r.stop("vector load")
			}
			r.reg[v] = vec{x, y}
		}
	case "LDPW":
		p := post(a[0])
		for n, d := range []string{a[1].reg, a[1].reg2} {
			x, ok := r.in.load(r.st, at(p, 4*n), u32).(*Term)
			if !ok {
				r.stop("word load")
			}
			r.reg[d] = Zext(x, 64)
		}
	case "STPW", "STPW.P":
		p := post(a[1])
		for n, d := range []string{a[0].reg, a[0].reg2} {
			r.in.store(r.st, at(p, 4*n), u32, Trunc(r.word(asmOp{kind: aReg, reg: d}), 32), True)
		}
	case "AESE":
		r.reg[a[1].reg] = toBlock(r.vecOf(a[1].reg)).xor(toBlock(r.vecOf(a[0].reg))).shift(1).sub("aes.sbox").vec()
	case "AESD":
		r.reg[a[1].reg] = toBlock(r.vecOf(a[1].reg)).xor(toBlock(r.vecOf(a[0].reg))).shift(-1).sub("aes.invsbox").vec()
	case "AESMC":
		r.reg[a[1].reg] = toBlock(r.vecOf(a[0].reg)).mix(mixF).vec()
	case "AESIMC":
		r.reg[a[1].reg] = toBlock(r.vecOf(a[0].reg)).mix(mixI).vec()
	case "VEOR":
		x, y := r.vecOf(a[0].reg), r.vecOf(a[1].reg)
		r.reg[a[2].reg] = vec{Xor(x[0], y[0]), Xor(x[1], y[1])}
	case "VMOV":
		sm, dm := vecLaneRe.FindStringSubmatch(a[0].text), vecLaneRe.FindStringSubmatch(a[1].text)
		switch {
		case sm != nil && dm == nil:
			k := uint64(sm[3][0] - '0')
			v := r.vecOf(sm[1])
			if sm[2] == "D" {
				r.put(a[1], v[k])
			} else {
				r.put(a[1], wordAt(v, k))
			}
		case sm == nil && dm != nil:
			k := uint64(dm[3][0] - '0')
			v := r.vecOf(dm[1])
			x := r.word(a[0])
			if dm[2] == "D" {
				v[k] = x
			} else {
				s := uint(32 * (k & 1))
				v[k>>1] = Xor(BAnd(v[k>>1], Const(64, ^(uint64(0xffffffff)<<s))), Shl(low(x), s))
			}
			r.reg[dm[1]] = v
		case sm == nil && dm == nil:
			r.reg[a[1].reg] = r.vecOf(a[0].reg)
		default:
			return false
		}
	case "WORD":
		w := a[0].imm
		if w&0xffe0fc00 != 0x4e000000 {
			return false
		}
		// TBL Vd.16B, {Vn.16B}, Vm.16B
		n, m := toBlock(r.vecOf(fmt.Sprint("V", w>>5&31))), toBlock(r.vecOf(fmt.Sprint("V", w>>16&31)))
		var o block
		for k := range o {
			if m[k].k != KConst {
				r.stop("table lookup by unknown indices")
			}
			o[k] = Const(8, 0)
			if m[k].c < 16 {
				o[k] = n[m[k].c]
			}
		}
		r.reg[fmt.Sprint("V", w&31)] = o.vec()
	case "MOVW", "MOVWU":
		if a[0].kind != aImm {
			return false
		}
		r.put(a[1], Const(64, a[0].imm))
	case "EORW", "LSLW", "ANDSW", "ANDW", "ORRW":
		x := r.word(a[0])
		y := r.word(a[len(a)-1])
		if len(a) == 3 {
			y = r.word(a[1])
		}
		var t *Term
		switch i.op {
		case "EORW":
			t = Xor(x, y)
		case "ANDW", "ANDSW":
			t = BAnd(x, y)
		case "ORRW":
			t = BOr(x, y)
		case "LSLW":
			if x.k != KConst {
				return false
			}
			t = Shl(y, uint(x.c&31))
		}
		t = low(t)
		if i.op == "ANDSW" {
			r.clearFlags()
			r.bf = nil
			r.zf = Not(toBoolNum(t))
		}
		r.put(a[len(a)-1], t)
	case "CSELW":
		j := *i
		j.op = "CSEL"
		r.arm64(&j)
	default:
		return false
	}
	return true
}
