package sha3

import (
	"io"

	"github.com/henrydcase/nobs/verifrt"
)

// vAlg describes one exported constructor.
type vAlg struct {
	rate, size int
	sfx        byte
	mk         func() io.Writer
}

func vAlgs() []vAlg {
	return []vAlg{
		{144, 28, 0x06, func() io.Writer { return New224() }},
		{136, 32, 0x06, func() io.Writer { return New256() }},
		{104, 48, 0x06, func() io.Writer { return New384() }},
		{72, 64, 0x06, func() io.Writer { return New512() }},
		{168, 0, 0x1f, func() io.Writer { return NewShake128() }},
		{136, 0, 0x1f, func() io.Writer { return NewShake256() }},
		{168, 0, 0x04, func() io.Writer { return NewCShake128([]byte("nn"), []byte("sss")) }},
		{136, 0, 0x04, func() io.Writer { return NewCShake256([]byte("nn"), []byte("sss")) }},
	}
}

// vPrefix is what the constructor has absorbed already.
func vPrefix(al vAlg) []byte {
	if al.sfx != 0x04 {
		return nil
	}
	b := []byte{1, byte(al.rate), 1, 16, 'n', 'n', 1, 24, 's', 's', 's'}
	return append(b, make([]byte, al.rate-len(b))...)
}

func vXorLane(a *[25]uint64, i int, b byte) {
	a[i/8] ^= uint64(b) << (8 * uint(i%8))
}

// vSponge is the Keccak sponge of FIPS 202 (section 4) with keccakF1600 as permutation.
func vSponge(n, rate int, sfx byte, msg []byte) []byte {
	var a [25]uint64
	for len(msg) >= rate {
		for i := 0; i < rate; i++ {
			vXorLane(&a, i, msg[i])
		}
		keccakF1600(&a)
		msg = msg[rate:]
	}
	for i := range msg {
		vXorLane(&a, i, msg[i])
	}
	vXorLane(&a, len(msg), sfx)
	vXorLane(&a, rate-1, 0x80)
	keccakF1600(&a)
	out := make([]byte, n)
	for i := 0; i < n; i++ {
		if i > 0 && i%rate == 0 {
			keccakF1600(&a)
		}
		j := i % rate
		out[i] = byte(a[j/8] >> (8 * uint(j%8)))
	}
	return out
}

func vCat(bs ...[]byte) []byte {
	var out []byte
	for _, b := range bs {
		out = append(out, b...)
	}
	return out
}

func vWrite(w io.Writer, b []byte) {
	n, err := w.Write(b)
	verifrt.Assert("Write reports its whole input", n == len(b))
	verifrt.Assert("Write succeeds", err == nil)
}

func vRead(w io.Writer, n int) []byte {
	out := make([]byte, n)
	vReadTo(w, out)
	return out
}

func vReadTo(w io.Writer, out []byte) {
	r, err := w.(io.Reader).Read(out)
	verifrt.Assert("Read fills the whole output", r == len(out))
	verifrt.Assert("Read succeeds", err == nil)
}
