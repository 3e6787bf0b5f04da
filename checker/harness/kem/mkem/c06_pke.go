package mkem

import (
	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/drbg"
	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/verifrt"
)

func vShake128(n int, in ...[]byte) []byte {
	h := sha3.NewShake128()
	for _, b := range in {
		h.Write(b)
	}
	out := make([]byte, n)
	h.Read(out)
	return out
}

// vEphemeral is the key delivered by the n-th key generation.
func vEphemeral(name string) *csidh.PrivateKey {
	sk := new(csidh.PrivateKey)
	verifrt.Assert("private key imports", sk.Import(verifrt.Bytes(name, 37)))
	return sk
}

func verifC06Enc() {
	c := vPKE()
	pub := vCsidhPub("pub")
	var pt [16]byte
	verifrt.Fill("pt", pt[:])
	snapPub, snapPt := verifrt.Snapshot(pub), verifrt.Snapshot(pt)
	var ct ciphertext
	failed := verifrt.Panics(func() { ct = c.Enc(pub, &pt) })
	var ss [64]byte
	sk := vEphemeral("csidh.sk#1")
	valid := csidh.DeriveSecret(&ss, pub, sk, c.Rng)
	verifrt.Assert("refused exactly when no secret was agreed", failed == verifrt.Or(verifrt.Bool("csidh.keygen.failed#1"), !valid))
	verifrt.Assert("recipient key unchanged", verifrt.Unchanged(snapPub, pub))
	verifrt.Assert("plaintext unchanged", verifrt.Unchanged(snapPt, pt))
	if failed {
		return
	}
	verifrt.Assert("plaintext masked by SHAKE128 of the agreed secret", verifrt.EqBytes(ct.V[:16], vXor(pt[:], vShake128(16, ss[:]))))
	verifrt.Assert("rest of the masked part is zero", verifrt.EqBytes(ct.V[16:], make([]byte, 48)))
	var pkA csidh.PublicKey
	csidh.GeneratePublicKey(&pkA, sk, c.Rng)
	var u [64]byte
	pkA.Export(u[:])
	verifrt.Assert("ephemeral public key", verifrt.EqBytes(ct.U[:], u[:]))
}

func verifC06Dec() {
	c := vPKE()
	var ct ciphertext
	verifrt.Fill("ct.U", ct.U[:])
	verifrt.Fill("ct.V", ct.V[:])
	sk := vEphemeral("sk")
	snapSk, snapCt := verifrt.Snapshot(sk), verifrt.Snapshot(ct)
	var ss [64]byte
	pub := vCsidhPub("ct.U")
	verifrt.Assume(csidh.DeriveSecret(&ss, pub, sk, c.Rng))
	pt := c.Dec(sk, &ct)
	verifrt.Assert("private key unchanged", verifrt.Unchanged(snapSk, sk))
	verifrt.Assert("ciphertext unchanged", verifrt.Unchanged(snapCt, ct))
	verifrt.Assert("plaintext", verifrt.EqBytes(pt[:], vXor(ct.V[:16], vShake128(16, ss[:]))))
}

func vMultiEnc(n, alloc int) {
	verifrt.Mode("pke")
	c := new(MultiPKE)
	c.Allocate(uint(alloc), drbg.NewCtrDrbg())
	verifrt.Havoc("old", c.H)
	var pubs []csidh.PublicKey
	for i := 0; i < n; i++ {
		pubs = append(pubs, *vCsidhPub(vNames[i]))
	}
	for i := 0; i < alloc; i++ {
		verifrt.Fill("oldct", c.Cts[i][:])
	}
	verifrt.Fill("oldct0", c.Ct0[:])
	var pt [16]byte
	verifrt.Fill("pt", pt[:])
	snapPubs, snapPt := verifrt.Snapshot(pubs), verifrt.Snapshot(pt)
	failed := verifrt.Panics(func() { c.Encrypt(pubs, &pt) })
	sk := vEphemeral("csidh.sk#1")
	allValid := !verifrt.Bool("csidh.keygen.failed#1")
	for i := 0; i < n; i++ {
		var ss [64]byte
		valid := csidh.DeriveSecret(&ss, &pubs[i], sk, c.Rng)
		want := vXor(pt[:], vShake128(16, ss[:]))
		allValid = verifrt.And(allValid, valid)
		for j := range want {
			b := c.Cts[i][j]
			masked := verifrt.And(valid, b == want[j])
			verifrt.Assert("ciphertext byte is masked under the agreed secret, or untouched by a refused call",
				verifrt.Or(masked, verifrt.And(failed, b == verifrt.Bytes("oldct", 64)[j])))
		}
	}
	verifrt.Assert("refused exactly when some secret was not agreed", failed == !allValid)
	verifrt.Assert("recipient keys unchanged", verifrt.Unchanged(snapPubs, pubs))
	verifrt.Assert("plaintext unchanged", verifrt.Unchanged(snapPt, pt))
	if failed {
		return
	}
	var pkA csidh.PublicKey
	csidh.GeneratePublicKey(&pkA, sk, c.Rng)
	var u [64]byte
	pkA.Export(u[:])
	verifrt.Assert("ephemeral public key", verifrt.EqBytes(c.Ct0[:], u[:]))
}

func verifC06Multi1()    { vMultiEnc(1, 1) }
func verifC06Multi2()    { vMultiEnc(2, 2) }
func verifC06Multi3()    { vMultiEnc(3, 4) }
func verifC06MultiMany() { vMultiEnc(33, 35) }
