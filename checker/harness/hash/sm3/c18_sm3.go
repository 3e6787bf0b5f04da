package sm3

import "github.com/henrydcase/nobs/verifrt"

func vChunks(lo, hi int) {
	p := verifrt.Bytes("p", 64)
	a := verifrt.Bytes("a", 64)
	b := verifrt.Bytes("b", 3*64+8)
	snap := verifrt.Snapshot([][]byte{p, a, b})
	for i := lo; i < hi; i++ {
		for _, n := range []int{0, 1, 8, 55 - i, 56 - i, 57 - i, 63 - i, 64 - i, 65 - i, 120 - i, 127 - i, 128 - i, 129 - i, 192 - i, 197 - i} {
			if n < 0 {
				continue
			}
			h := New()
			vWrite(h, p)
			vWrite(h, a[:i])
			vWrite(h, b[:n])
			verifrt.Assert("hash of the concatenated input", verifrt.EqBytes(h.Sum(nil), vDigest(p, a[:i], b[:n])))
		}
	}
	verifrt.Assert("inputs unchanged", verifrt.Unchanged(snap, [][]byte{p, a, b}))
}

func verifC18Chunks0() { vChunks(0, 16) }
func verifC18Chunks1() { vChunks(16, 32) }
func verifC18Chunks2() { vChunks(32, 48) }
func verifC18Chunks3() { vChunks(48, 64) }

func verifC18Whole() {
	m := verifrt.Bytes("m", 200)
	for n := 0; n <= 200; n++ {
		h := New()
		vWrite(h, m[:n])
		d := h.Sum(nil)
		verifrt.Assert("hash", verifrt.EqBytes(d, vDigest(m[:n])))
		verifrt.Assert("hash again", verifrt.EqBytes(h.Sum(nil), d))
	}
}

// the chaining value and length after any whole number of blocks
func verifC18ManyBlocks() {
	m := verifrt.Bytes("m", 64*20+60)
	for n := 0; n < 20; n++ {
		for _, k := range []int{0, 1, 55, 56, 60} {
			h := New()
			vWrite(h, m[:64*n+k])
			verifrt.Assert("hash", verifrt.EqBytes(h.Sum(nil), vDigest(m[:64*n+k])))
			vWrite(h, m[64*n+k:64*n+60])
			verifrt.Assert("hash after more input", verifrt.EqBytes(h.Sum(nil), vDigest(m[:64*n+60])))
		}
	}
}

// lengths whose bit count needs more than 16 bits
func verifC18Length() {
	m := verifrt.Bytes("m", 70000)
	h := New()
	vWrite(h, m)
	verifrt.Assert("hash", verifrt.EqBytes(h.Sum(nil), vDigest(m)))
	vWrite(h, m)
	verifrt.Assert("hash of more input", verifrt.EqBytes(h.Sum(nil), vDigest(m, m)))
}

// inputs of up to 2^61-1 bytes: the length field holds the exact bit count
func verifC18LongInputs() {
	b := verifrt.Bytes("b", 128)
	t := verifrt.Bytes("t", 150)
	for _, k := range []uint64{1<<10 + 3, 1<<17 - 1, 1 << 17, 1<<20 + 1, 1<<23 - 1, 1 << 23, 1<<23 + 5, 1<<26 - 1, 1 << 26, 1<<29 + 7, 1<<32 + 1, 1<<47 + 9, 1<<55 - 2} {
		for _, n := range []int{0, 1, 55, 56, 63, 64, 120} {
			h0, h1, h2 := New(), New(), New()
			vWrite(h1, b[:64])
			vWrite(h2, b[:64])
			vWrite(h2, b[64:])
			if !verifrt.Extrapolate(h0, h1, h2, k) {
				continue
			}
			verifrt.Cover("long input")
			v := vIV
			vCompress(&v, b[:64])
			vCompress(&v, b[64:])
			vWrite(h2, t[:n])
			verifrt.Assert("hash of a long input", verifrt.EqBytes(h2.Sum(nil), vSM3(v, t[:n], 64*k+uint64(n))))
			vWrite(h2, t[n:])
			verifrt.Assert("hash of a long input", verifrt.EqBytes(h2.Sum(nil), vSM3(v, t, 64*k+150)))
		}
	}
}
