package sha3

import "github.com/henrydcase/nobs/verifrt"

func vRol(x uint64, k uint) uint64 {
	if k == 0 {
		return x
	}
	return x<<k | x>>(64-k)
}

// vKeccak is Keccak-f[1600] as in FIPS 202, section 3; the lanes between rounds
// get names.
func vKeccak(a *[25]uint64) {
	lfsr := byte(1)
	for round := 0; round < 24; round++ {
		var c [5]uint64
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for i := range a {
			a[i] ^= c[(i+4)%5] ^ vRol(c[(i+1)%5], 1)
		}
		x, y := 1, 0
		cur := a[1]
		for t := 0; t < 24; t++ {
			x, y = y, (2*x+3*y)%5
			cur, a[x+5*y] = a[x+5*y], vRol(cur, uint((t+1)*(t+2)/2)%64)
		}
		for y := 0; y < 25; y += 5 {
			var b [5]uint64
			copy(b[:], a[y:y+5])
			for x := 0; x < 5; x++ {
				a[x+y] = b[x] ^ ^b[(x+1)%5]&b[(x+2)%5]
			}
		}
		for j := uint(0); j < 7; j++ {
			if lfsr&1 != 0 {
				a[0] ^= 1 << (uint(1)<<j - 1)
			}
			h := lfsr >> 7
			lfsr <<= 1
			if h != 0 {
				lfsr ^= 0x71
			}
		}
		for i := range a {
			a[i] = verifrt.Name(a[i])
		}
	}
}

func verifC30Permutation() {
	verifrt.Mode("prim")
	var a, b [25]uint64
	verifrt.Havoc("state", &a)
	b = a
	vKeccak(&b)
	keccakF1600(&a)
	for i := range a {
		verifrt.Assert("lane after the permutation", a[i] == b[i])
	}
}
