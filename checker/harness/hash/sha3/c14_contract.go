package sha3

import (
	"hash"
	"io"

	"github.com/henrydcase/nobs/verifrt"
)

// vReach drives a fresh object to a reachable state: nothing written, some
// bytes, some blocks; with or without output read.
func vReach(w io.Writer, al vAlg, kind int) []byte {
	m := verifrt.Bytes("m", 3*al.rate)
	n := 0
	switch kind {
	case 1:
		n = 5
	case 2:
		n = al.rate - 1
	case 3:
		n = al.rate
	case 4:
		n = 2*al.rate + 11
	}
	if n > 0 {
		w.Write(m[:n])
	}
	return m[:n]
}

func vHashes() []vAlg { return vAlgs()[:4] }

func verifC14Sizes() {
	for _, al := range vHashes() {
		h := al.mk().(hash.Hash)
		verifrt.Assert("Size", h.Size() == al.size)
		verifrt.Assert("BlockSize", h.BlockSize() == al.rate)
		vReach(h, al, 4)
		h.Sum(nil)
		verifrt.Assert("Size later", h.Size() == al.size)
		verifrt.Assert("BlockSize later", h.BlockSize() == al.rate)
		h.Reset()
		verifrt.Assert("Size after Reset", h.Size() == al.size)
		verifrt.Assert("BlockSize after Reset", h.BlockSize() == al.rate)
	}
}

func vSumAppends(al vAlg, kind int) {
	h := al.mk().(hash.Hash)
	msg := vReach(h, al, kind)
	want := vSponge(al.size, al.rate, al.sfx, msg)
	for _, l := range []int{0, 1, 31, 100} {
		for _, extra := range []int{0, 1, al.size - 1, al.size, al.size + 1, 200} {
			in := verifrt.BytesCap("in", l, extra)
			old := append([]byte(nil), in...)
			var out []byte
			p := verifrt.Panics(func() { out = h.Sum(in) })
			verifrt.Assert("Sum returns", !p)
			verifrt.Assert("Sum appends Size bytes", len(out) == l+al.size)
			verifrt.Assert("Sum keeps the prefix", verifrt.EqBytes(out[:l], old))
			verifrt.Assert("Sum appends the digest", verifrt.EqBytes(out[l:], want))
			verifrt.Assert("Sum leaves its argument's bytes", verifrt.EqBytes(in, old))
		}
	}
	out := h.Sum(nil)
	verifrt.Assert("Sum(nil) is the digest", verifrt.EqBytes(out, want))
	// still usable
	more := verifrt.Bytes("more", al.rate+1)
	vWrite(h, more)
	verifrt.Assert("digest after more input", verifrt.EqBytes(h.Sum(nil), vSponge(al.size, al.rate, al.sfx, vCat(msg, more))))
}

func verifC14Sum() {
	for _, al := range vHashes() {
		for k := 0; k < 5; k++ {
			vSumAppends(al, k)
		}
	}
}

type vResetter interface {
	io.ReadWriter
	Reset()
}

func verifC14Reset() {
	for _, al := range vAlgs() {
		for k := 0; k < 5; k++ {
			for _, rd := range []int{-1, 0, 1, al.rate - 1, al.rate, al.rate + 7} {
				h := al.mk().(vResetter)
				vReach(h, al, k)
				if rd >= 0 {
					vRead(h, rd)
				}
				h.Reset()
				n := verifrt.Bytes("n", al.rate+9)
				for _, l := range []int{0, 9, al.rate + 9} {
					h.Reset()
					vWrite(h, n[:l])
					want := vSponge(al.rate+1, al.rate, al.sfx, vCat(vPrefix(al), n[:l]))
					verifrt.Assert("as fresh after Reset", verifrt.EqBytes(vRead(h, al.rate+1), want))
				}
			}
		}
	}
}

func verifC14WriteAfterRead() {
	for _, al := range vAlgs() {
		for k := 0; k < 5; k++ {
			for _, rd := range []int{0, 1, al.rate - 1, al.rate, al.rate + 7} {
				for _, l := range []int{0, 1, al.rate, al.rate + 3} {
					h := al.mk()
					msg := vReach(h, al, k)
					vRead(h, rd)
					in := verifrt.Bytes("in", l)
					n, err := h.Write(in)
					verifrt.Assert("ErrWriteAfterRead", err == ErrWriteAfterRead)
					verifrt.Assert("nothing consumed", n == 0)
					all := vSponge(rd+20, al.rate, al.sfx, vCat(vPrefix(al), msg))
					verifrt.Assert("output continues", verifrt.EqBytes(vRead(h, 20), all[rd:]))
				}
			}
		}
	}
}

func verifC14WriteCount() {
	for _, al := range vAlgs() {
		in := verifrt.Bytes("in", 2*al.rate+1)
		for _, i := range []int{0, 1, al.rate - 1} {
			for n := 0; n <= 2*al.rate+1; n += 3 {
				h := al.mk()
				vWrite(h, in[:i])
				vWrite(h, in[:n])
			}
		}
	}
}
