package sha3

import "github.com/henrydcase/nobs/verifrt"

// vLong: a message and an output of more than 2^16 bytes, each in one call.
func vLong(k int) {
	al := vAlgs()[k]
	rate := al.rate
	n := (1<<16/rate + 2) * rate
	m := verifrt.Bytes("m", n+5)
	h := al.mk()
	vWrite(h, m[:3])
	vWrite(h, m[3:])
	var a [25]uint64
	if pre := vPrefix(al); pre != nil {
		for i := range pre {
			vXorLane(&a, i, pre[i])
		}
		keccakF1600(&a)
	}
	for p := 0; p < n; p += rate {
		for i := 0; i < rate; i++ {
			vXorLane(&a, i, m[p+i])
		}
		keccakF1600(&a)
	}
	for i := 0; i < 5; i++ {
		vXorLane(&a, i, m[n+i])
	}
	vXorLane(&a, 5, al.sfx)
	vXorLane(&a, rate-1, 0x80)
	out := make([]byte, n+7)
	vReadTo(h, out[:2])
	vReadTo(h, out[2:])
	for p := 0; p < n+7; p += rate {
		keccakF1600(&a)
		ok := true
		for i := 0; i < rate && p+i < n+7; i++ {
			ok = verifrt.And(ok, out[p+i] == byte(a[i/8]>>(8*uint(i%8))))
		}
		verifrt.Assert("output block", ok)
	}
}

func verifC15Long224()  { vLong(0) }
func verifC15Long256()  { vLong(1) }
func verifC15Long384()  { vLong(2) }
func verifC15Long512()  { vLong(3) }
func verifC15LongS128() { vLong(4) }
func verifC15LongS256() { vLong(5) }
func verifC15LongC128() { vLong(6) }
func verifC15LongC256() { vLong(7) }
