package sm3

import (
	"hash"

	"github.com/henrydcase/nobs/verifrt"
)

func vReach(h hash.Hash, kind int) []byte {
	m := verifrt.Bytes("m", 200)
	n := []int{0, 5, 55, 56, 63, 64, 139}[kind]
	if n > 0 {
		h.Write(m[:n])
	}
	return m[:n]
}

const vKinds = 7

func verifC14Sizes() {
	verifrt.Assert("Size constant", Size == 32)
	verifrt.Assert("BlockSize constant", BlockSize == 64)
	h := New()
	for k := 0; k < vKinds; k++ {
		verifrt.Assert("Size", h.Size() == 32)
		verifrt.Assert("BlockSize", h.BlockSize() == 64)
		vReach(h, k)
		h.Sum(nil)
	}
	h.Reset()
	verifrt.Assert("Size after Reset", h.Size() == 32)
	verifrt.Assert("BlockSize after Reset", h.BlockSize() == 64)
}

// Sum with an empty argument: the digest, any number of times, and the object stays usable
func verifC14Sum() {
	for k := 0; k < vKinds; k++ {
		h := New()
		msg := vReach(h, k)
		want := vDigest(msg)
		verifrt.Assert("Sum(nil) is the digest", verifrt.EqBytes(h.Sum(nil), want))
		verifrt.Assert("Sum(nil) again", verifrt.EqBytes(h.Sum(nil), want))
		d := h.Sum(nil)
		verifrt.Assert("32 bytes", len(d) == 32)
		verifrt.Fill("overwritten", d)
		verifrt.Assert("result not shared with the object", verifrt.EqBytes(h.Sum(nil), want))
		more := verifrt.Bytes("more", 70)
		vWrite(h, more)
		verifrt.Assert("digest after more input", verifrt.EqBytes(h.Sum(nil), vDigest(msg, more)))
	}
}

// Sum with an argument leaves object and argument as they were
func verifC14SumKeeps() {
	for k := 0; k < vKinds; k++ {
		h := New()
		msg := vReach(h, k)
		for _, l := range []int{1, 20, 100} {
			in := verifrt.BytesCap("in", l, 50)
			snap := verifrt.Snapshot(in)
			h.Sum(in)
			verifrt.Assert("argument bytes unchanged", verifrt.Unchanged(snap, in))
			verifrt.Assert("object unchanged", verifrt.EqBytes(h.Sum(nil), vDigest(msg)))
		}
	}
}

func verifC14SumAppends() {
	h := New()
	h.Write(verifrt.Bytes("m", 5))
	in := verifrt.Bytes("in", 7)
	out := h.Sum(in)
	verifrt.Assert("Sum appends to its argument", len(out) == 7+32)
}

func verifC14Reset() {
	for k := 0; k < vKinds; k++ {
		for s := 0; s < 3; s++ {
			h := New()
			vReach(h, k)
			if s > 0 {
				h.Sum(nil)
			}
			h.Reset()
			if s > 1 {
				h.Reset()
			}
			m := verifrt.Bytes("n", 130)
			for _, l := range []int{0, 3, 63, 130} {
				h.Reset()
				vWrite(h, m[:l])
				verifrt.Assert("as fresh after Reset", verifrt.EqBytes(h.Sum(nil), vDigest(m[:l])))
			}
		}
	}
}

func verifC14WriteCount() {
	in := verifrt.Bytes("in", 130)
	for _, i := range []int{0, 1, 63} {
		for n := 0; n <= 130; n++ {
			h := New()
			vWrite(h, verifrt.Bytes("a", i))
			vWrite(h, in[:n])
		}
	}
}
