package sm3

import "github.com/henrydcase/nobs/verifrt"

// the compression function on every message block and chaining value, in calls
// for one block and for a run of blocks
func verifC30Compress() {
	verifrt.Mode("prim")
	m := verifrt.Bytes("m", 64*4)
	h := New()
	h.Write(m[:64])
	verifrt.Assert("one block", verifrt.EqBytes(h.Sum(nil), vDigest(m[:64])))
	h.Write(m[64 : 64+10])
	h.Write(m[64+10:])
	verifrt.Assert("four blocks", verifrt.EqBytes(h.Sum(nil), vDigest(m)))
}

func verifC30Blocks() {
	verifrt.Mode("prim")
	m := verifrt.Bytes("m", 64*4)
	h := New()
	h.Write(m[:64*2])
	h.Write(m[64*2:])
	verifrt.Assert("two runs of two blocks", verifrt.EqBytes(h.Sum(nil), vDigest(m)))
	g := New()
	g.Write(m[:64*3])
	verifrt.Assert("run of three blocks", verifrt.EqBytes(g.Sum(nil), vDigest(m[:64*3])))
}
