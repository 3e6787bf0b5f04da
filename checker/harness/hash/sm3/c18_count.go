package sm3

import "github.com/henrydcase/nobs/verifrt"

// Any number of blocks: after at most three iterations of any loop, the input
// must have ended.
func verifC18Count() {
	verifrt.Mode("prim")
	verifrt.Mode("counts")
	q := verifrt.Int("count", 0, 1<<33)
	h := New()
	verifrt.Cut(3)
	h.Write(verifrt.BytesLen("m", 64*q))
	verifrt.Cut(0)
	verifrt.Assert("no block is left out", q <= 5)
}

// A single Write of any length enters the length field in full.
func vCountLength(r int) {
	verifrt.Mode("counts")
	q := verifrt.Int("count", 0, 1<<33)
	h := New()
	verifrt.Cut(3)
	h.Write(verifrt.BytesLen("m", 64*q+r))
	h.Sum(nil)
	verifrt.Cut(0)
	var b [64]byte
	verifrt.LastBlock(&b)
	n := uint64(0)
	for _, x := range b[56:] {
		n = n<<8 | uint64(x)
	}
	verifrt.Assert("length field", n == 8*uint64(64*q+r))
}

func verifC18CountLength0()  { vCountLength(0) }
func verifC18CountLength5()  { vCountLength(5) }
func verifC18CountLength60() { vCountLength(60) }
