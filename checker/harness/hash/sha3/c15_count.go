package sha3

import "github.com/henrydcase/nobs/verifrt"

// Any number of blocks in one call: after at most three iterations of any loop
// the input, or the output, must have ended.
func vCount(read bool) {
	verifrt.Mode("counts")
	q := verifrt.Int("count", 0, 1<<33)
	for _, al := range vAlgs() {
		h := al.mk()
		if read {
			verifrt.Cut(3)
			vReadTo(h, verifrt.BytesLen("out", al.rate*q))
		} else {
			verifrt.Cut(3)
			vWrite(h, verifrt.BytesLen("m", al.rate*q))
		}
		verifrt.Cut(0)
		verifrt.Assert("no block is left out", q <= 6)
	}
}

func verifC15CountWrite() { vCount(false) }
func verifC15CountRead()  { vCount(true) }
