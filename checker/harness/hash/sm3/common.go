package sm3

import (
	"hash"

	"github.com/henrydcase/nobs/verifrt"
)

func vRot(x uint32, n uint) uint32 { return x<<(n%32) | x>>((32-n%32)%32) }

// vCompress is CF of GB/T 32905-2016, section 5.3.
func vCompress(v *[8]uint32, block []byte) {
	var w [68]uint32
	var w1 [64]uint32
	for i := 0; i < 16; i++ {
		w[i] = uint32(block[4*i])<<24 | uint32(block[4*i+1])<<16 | uint32(block[4*i+2])<<8 | uint32(block[4*i+3])
	}
	for i := 16; i < 68; i++ {
		x := w[i-16] ^ w[i-9] ^ vRot(w[i-3], 15)
		w[i] = x ^ vRot(x, 15) ^ vRot(x, 23) ^ vRot(w[i-13], 7) ^ w[i-6]
	}
	for i := 0; i < 64; i++ {
		w1[i] = w[i] ^ w[i+4]
	}
	a, b, c, d, e, f, g, h := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	for i := 0; i < 64; i++ {
		t := uint32(0x79cc4519)
		ff, gg := a^b^c, e^f^g
		if i >= 16 {
			t = 0x7a879d8a
			ff = a&b | a&c | b&c
			gg = e&f | ^e&g
		}
		ss1 := vRot(vRot(a, 12)+e+vRot(t, uint(i)), 7)
		ss2 := ss1 ^ vRot(a, 12)
		tt1 := ff + d + ss2 + w1[i]
		tt2 := gg + h + ss1 + w[i]
		d = c
		c = vRot(b, 9)
		b = a
		a = tt1
		h = g
		g = vRot(f, 19)
		f = e
		e = tt2 ^ vRot(tt2, 9) ^ vRot(tt2, 17)
	}
	v[0] ^= a
	v[1] ^= b
	v[2] ^= c
	v[3] ^= d
	v[4] ^= e
	v[5] ^= f
	v[6] ^= g
	v[7] ^= h
}

// vSM3 hashes total bytes of which only msg, the last ones, are given; v is the
// chaining value after the rest.
func vSM3(v [8]uint32, msg []byte, total uint64) []byte {
	m := append([]byte(nil), msg...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	for i := 7; i >= 0; i-- {
		m = append(m, byte((total*8)>>(8*uint(i))))
	}
	for len(m) > 0 {
		vCompress(&v, m[:64])
		m = m[64:]
	}
	var out []byte
	for _, x := range v {
		out = append(out, byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
	}
	return out
}

var vIV = [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}

func vDigest(bs ...[]byte) []byte {
	var m []byte
	for _, b := range bs {
		m = append(m, b...)
	}
	return vSM3(vIV, m, uint64(len(m)))
}

func vWrite(h hash.Hash, b []byte) {
	n, err := h.Write(b)
	verifrt.Assert("Write reports its whole input", n == len(b))
	verifrt.Assert("Write succeeds", err == nil)
}
