package sha3

import "github.com/henrydcase/nobs/verifrt"

// lengths of a Write following i buffered bytes that fall into every case of the block structure
func vLens(i, rate int) []int {
	c := []int{0, 1, 7, 8, 9, rate - i - 1, rate - i, rate - i + 1, 2*rate - i - 1, 2*rate - i, 2*rate - i + 1, 3*rate - i, 3*rate - i + 5}
	return c
}

// vAbsorb: a block, then i bytes, then n bytes, then the output; every i, every class of n.
func vAbsorb(k, lo, hi int) {
	al := vAlgs()[k]
	rate := al.rate
	p := verifrt.Bytes("p", rate)
	a := verifrt.Bytes("a", rate)
	b := verifrt.Bytes("b", 3*rate+8)
	snap := verifrt.Snapshot([][]byte{p, a, b})
	pre := vPrefix(al)
	for i := lo; i < hi && i < rate; i++ {
		for _, n := range vLens(i, rate) {
			h := al.mk()
			vWrite(h, p)
			vWrite(h, a[:i])
			vWrite(h, b[:n])
			want := vSponge(rate, rate, al.sfx, vCat(pre, p, a[:i], b[:n]))
			verifrt.Assert("sponge of the concatenated input", verifrt.EqBytes(vRead(h, rate), want))
		}
	}
	verifrt.Assert("inputs unchanged", verifrt.Unchanged(snap, [][]byte{p, a, b}))
}

func verifC15Absorb224()  { vAbsorb(0, 0, 200) }
func verifC15Absorb256()  { vAbsorb(1, 0, 200) }
func verifC15Absorb384()  { vAbsorb(2, 0, 200) }
func verifC15Absorb512()  { vAbsorb(3, 0, 200) }
func verifC15AbsorbS128() { vAbsorb(4, 0, 200) }
func verifC15AbsorbS256() { vAbsorb(5, 0, 200) }
func verifC15AbsorbC128() { vAbsorb(6, 0, 200) }
func verifC15AbsorbC256() { vAbsorb(7, 0, 200) }

// vSqueeze: reads of k1 and k2 bytes and the rest, for every k1 up to hi and every class of k2.
func vSqueeze(k int) {
	al := vAlgs()[k]
	rate := al.rate
	m := verifrt.Bytes("m", rate+3)
	all := vSponge(5*rate+16, rate, al.sfx, vCat(vPrefix(al), m))
	for k1 := 0; k1 <= 2*rate+1; k1++ {
		r := (rate - k1%rate) % rate
		for _, k2 := range []int{0, 1, 8, r - 1, r, r + 1, r + rate - 1, r + rate, r + rate + 1, r + 2*rate} {
			if k2 < 0 {
				continue
			}
			h := al.mk()
			vWrite(h, m)
			x := vRead(h, k1)
			y := vRead(h, k2)
			z := vRead(h, 3)
			verifrt.Assert("output in order", verifrt.EqBytes(vCat(x, y, z), all[:k1+k2+3]))
		}
	}
}

func verifC15Squeeze224()  { vSqueeze(0) }
func verifC15Squeeze256()  { vSqueeze(1) }
func verifC15Squeeze384()  { vSqueeze(2) }
func verifC15Squeeze512()  { vSqueeze(3) }
func verifC15SqueezeS128() { vSqueeze(4) }
func verifC15SqueezeS256() { vSqueeze(5) }
func verifC15SqueezeC128() { vSqueeze(6) }
func verifC15SqueezeC256() { vSqueeze(7) }

// whole messages of every length up to two blocks, in one Write; also without any Write
func vWhole(k int) {
	al := vAlgs()[k]
	rate := al.rate
	m := verifrt.Bytes("m", 2*rate+2)
	for n := 0; n <= 2*rate+2; n++ {
		h := al.mk()
		if n > 0 {
			vWrite(h, m[:n])
		}
		verifrt.Assert("output", verifrt.EqBytes(vRead(h, 40), vSponge(40, rate, al.sfx, vCat(vPrefix(al), m[:n]))))
	}
}

func verifC15Whole() {
	for k := 0; k < 8; k++ {
		vWhole(k)
	}
}

func verifC15ShakeSum() {
	m := verifrt.Bytes("m", 400)
	for _, n := range []int{0, 1, 135, 136, 137, 167, 168, 169, 400} {
		for _, k := range []int{0, 1, 16, 136, 168, 169, 350} {
			out := verifrt.Bytes("old", k)
			ShakeSum128(out, m[:n])
			verifrt.Assert("ShakeSum128", verifrt.EqBytes(out, vSponge(k, 168, 0x1f, m[:n])))
			ShakeSum256(out, m[:n])
			verifrt.Assert("ShakeSum256", verifrt.EqBytes(out, vSponge(k, 136, 0x1f, m[:n])))
		}
	}
}
