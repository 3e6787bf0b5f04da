package sha3

import "github.com/henrydcase/nobs/verifrt"

// The permutation and the sponge on secret data.
func verifC22Keccak() {
	verifrt.Mode("fpgo")
	verifrt.Mode("ct")
	var a [25]uint64
	verifrt.Havoc("secretState", &a)
	keccakF1600(&a)
	verifrt.Assert("the analysis reaches the end", true)
	verifrt.Cover("permutation")
}

func verifC22Sponge() {
	verifrt.Mode("ct")
	for _, h := range []ShakeHash{NewShake128(), NewShake256(), NewCShake128([]byte("N"), []byte("S")), NewCShake256(nil, []byte("S"))} {
		b := verifrt.Bytes("secretIn", 400)
		h.Write(b[:5])
		h.Write(b)
		out := make([]byte, 300)
		h.Read(out[:7])
		h.Read(out)
		h.Reset()
		h.Write(b)
		h.Read(out)
	}
	verifrt.Cover("sponge")
}
