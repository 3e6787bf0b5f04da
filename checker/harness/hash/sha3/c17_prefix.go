package sha3

import "github.com/henrydcase/nobs/verifrt"

// SP 800-185, section 2.3
func vLeftEncode(x uint64) []byte {
	n := 1
	for n < 8 && x>>(8*uint(n)) != 0 {
		n++
	}
	out := []byte{byte(n)}
	for i := n - 1; i >= 0; i-- {
		out = append(out, byte(x>>(8*uint(i))))
	}
	return out
}

func vEncodeString(s []byte) []byte { return vCat(vLeftEncode(8*uint64(len(s))), s) }

func vBytepad(x []byte, w int) []byte {
	z := vCat(vLeftEncode(uint64(w)), x)
	for len(z)%w != 0 {
		z = append(z, 0)
	}
	return z
}

func vCShake(n, rate int, N, S, msg []byte) []byte {
	if len(N) == 0 && len(S) == 0 {
		return vSponge(n, rate, 0x1f, msg)
	}
	return vSponge(n, rate, 0x04, vCat(vBytepad(vCat(vEncodeString(N), vEncodeString(S)), rate), msg))
}

func vCustom(rate int, nN, nS int) {
	N, S := verifrt.Bytes("N", nN), verifrt.Bytes("S", nS)
	snapN, snapS := verifrt.Snapshot(N), verifrt.Snapshot(S)
	var h ShakeHash
	if rate == 168 {
		h = NewCShake128(N, S)
	} else {
		h = NewCShake256(N, S)
	}
	m := verifrt.Bytes("m", 3)
	h.Write(m)
	want := vCShake(24, rate, N, S, m)
	verifrt.Assert("N unchanged", verifrt.Unchanged(snapN, N))
	verifrt.Assert("S unchanged", verifrt.Unchanged(snapS, S))
	c := h.Clone()
	verifrt.Fill("later", N)
	verifrt.Fill("later", S)
	verifrt.Assert("prefix, suffix and message", verifrt.EqBytes(vRead(h, 24), want))
	c.Reset()
	c.Write(m)
	verifrt.Assert("prefix not retained by reference", verifrt.EqBytes(vRead(c, 24), want))
}

// every length of N and S whose encodings end near a block boundary, and every small one
func vCustomAll(rate int) {
	for nN := 0; nN <= 2*rate+4; nN++ {
		vCustom(rate, nN, 0)
		vCustom(rate, nN, 7)
	}
	for nS := 0; nS <= 2*rate+4; nS++ {
		vCustom(rate, 0, nS)
		vCustom(rate, 4, nS)
	}
	for _, n := range []int{31, 32, 33, 255, 256, 8191, 8192, 8193} {
		vCustom(rate, n, 3)
		vCustom(rate, 3, n)
	}
}

func verifC17CShake128() { vCustomAll(168) }
func verifC17CShake256() { vCustomAll(136) }

func verifC17Nil() {
	m := verifrt.Bytes("m", 3)
	for _, N := range [][]byte{nil, {}} {
		for _, S := range [][]byte{nil, {}} {
			h := NewCShake128(N, S)
			h.Write(m)
			verifrt.Assert("plain SHAKE128", verifrt.EqBytes(vRead(h, 24), vSponge(24, 168, 0x1f, m)))
			h = NewCShake256(N, S)
			h.Write(m)
			verifrt.Assert("plain SHAKE256", verifrt.EqBytes(vRead(h, 24), vSponge(24, 136, 0x1f, m)))
		}
	}
}
