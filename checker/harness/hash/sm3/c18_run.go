package sm3

import "github.com/henrydcase/nobs/verifrt"

// the last block of a run of more than 2^8 blocks
func verifC18LongRun() {
	verifrt.Mode("prim")
	b := verifrt.Bytes("m", 64)
	m := make([]byte, 64*300)
	for i := 0; i < len(m)-64; i += 64 {
		m[i], m[i+5] = byte(i>>6), byte(i>>14)
	}
	copy(m[len(m)-64:], b)
	h := New()
	h.Write(m)
	verifrt.Assert("long run of blocks", verifrt.EqBytes(h.Sum(nil), vDigest(m)))
}
