package mkem

import (
	"io"

	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/hash/sha3"
	"github.com/henrydcase/nobs/verifrt"
)

// Sizes of the three parameter sets as published (SIKE specification, and the
// documented API sizes of this library), independent of the code under analysis.
type vPar struct {
	id                uint8
	msg, pk, ss       int
	bitsA, bitsB      int
	bytesA, bytesB, k int
}

var vPars = [3]vPar{
	{sidh.Fp434, 16, 330, 110, 216, 217, 27, 28, 16},
	{sidh.Fp503, 24, 378, 126, 250, 252, 32, 32, 24},
	{sidh.Fp751, 32, 564, 188, 372, 378, 47, 48, 32},
}

// vKEM is the exported interface shared by both SIKE implementations.
type vKEM interface {
	Allocate(id uint8, rng io.Reader)
	Encapsulate(ct, ss []byte, pub *sidh.PublicKey) error
	Decapsulate(ss []byte, prv *sidh.PrivateKey, pub *sidh.PublicKey, ct []byte) error
	Reset()
	CiphertextSize() int
	SharedSecretSize() int
}

// vNew gives the KEM of implementation impl (0: dh/sidh, 1: kem/mkem).
func vNew(impl int, p *vPar, rng io.Reader) vKEM {
	if impl == 0 {
		switch p.id {
		case sidh.Fp434:
			return sidh.NewSike434(rng)
		case sidh.Fp503:
			return sidh.NewSike503(rng)
		}
		return sidh.NewSike751(rng)
	}
	switch p.id {
	case sidh.Fp434:
		return NewSike434(rng)
	case sidh.Fp503:
		return NewSike503(rng)
	}
	return NewSike751(rng)
}

func vPrv(p *vPar, name string) *sidh.PrivateKey {
	prv := sidh.NewPrivateKey(p.id, sidh.KeyVariantSike)
	verifrt.Assert("private key imports", prv.Import(verifrt.Bytes(name, p.msg+p.bytesB)) == nil)
	return prv
}

func vPub(p *vPar, name string, v sidh.KeyVariant) *sidh.PublicKey {
	pub := sidh.NewPublicKey(p.id, v)
	verifrt.Assert("public key imports", pub.Import(verifrt.Bytes(name, p.pk)) == nil)
	return pub
}

func vHash(n int, in ...[]byte) []byte {
	h := sha3.NewShake256()
	for _, b := range in {
		h.Write(b)
	}
	out := make([]byte, n)
	h.Read(out)
	return out
}

// vScalarA reduces r to the key space of the 2-torsion group.
func vScalarA(p *vPar, r []byte) *sidh.PrivateKey {
	s := make([]byte, len(r))
	copy(s, r)
	if p.bitsA%8 != 0 {
		s[len(s)-1] &= byte(1)<<uint(p.bitsA%8) - 1
	}
	sk := sidh.NewPrivateKey(p.id, sidh.KeyVariantSidhA)
	copy(sk.Scalar, s)
	return sk
}

func vPubA(p *vPar, sk *sidh.PrivateKey) []byte {
	pk := sidh.NewPublicKey(p.id, sidh.KeyVariantSidhA)
	sk.GeneratePublicKey(pk)
	b := make([]byte, p.pk)
	pk.Export(b)
	return b
}

func vAgreeB(p *vPar, prv *sidh.PrivateKey, c0 []byte) []byte {
	pk := sidh.NewPublicKey(p.id, sidh.KeyVariantSidhA)
	pk.Import(c0)
	sk := sidh.NewPrivateKey(p.id, sidh.KeyVariantSidhB)
	copy(sk.Scalar, prv.Scalar)
	j := make([]byte, p.ss)
	sk.DeriveSecret(j, pk)
	return j
}

func vAgreeA(p *vPar, sk *sidh.PrivateKey, pub *sidh.PublicKey) []byte {
	b := make([]byte, p.pk)
	pub.Export(b)
	pk := sidh.NewPublicKey(p.id, sidh.KeyVariantSidhB)
	pk.Import(b)
	j := make([]byte, p.ss)
	sk.DeriveSecret(j, pub)
	return j
}

func vXor(a, b []byte) []byte {
	c := make([]byte, len(a))
	for i := range a {
		c[i] = a[i] ^ b[i]
	}
	return c
}

// vSpecEncaps is the SIKE encapsulation transcript for message m.
func vSpecEncaps(p *vPar, pub *sidh.PublicKey, m []byte) (ct, k []byte) {
	pkb := make([]byte, p.pk)
	pub.Export(pkb)
	sk := vScalarA(p, vHash(p.bytesA, m, pkb))
	c0 := vPubA(p, sk)
	c1 := vXor(m, vHash(p.msg, vAgreeA(p, sk, pub)))
	ct = append(append([]byte{}, c0...), c1...)
	return ct, vHash(p.k, m, ct)
}

// vSpecDecaps is SIKE decapsulation with implicit rejection.
func vSpecDecaps(p *vPar, prv *sidh.PrivateKey, pub *sidh.PublicKey, ct []byte) []byte {
	m := vXor(ct[p.pk:], vHash(p.msg, vAgreeB(p, prv, ct[:p.pk])))
	pkb := make([]byte, p.pk)
	pub.Export(pkb)
	c0 := vPubA(p, vScalarA(p, vHash(p.bytesA, m, pkb)))
	same := verifrt.EqBytes(c0, ct[:p.pk])
	k := make([]byte, p.msg)
	for i := range k {
		k[i] = verifrt.Select(same, m[i], prv.S[i])
	}
	return vHash(p.k, k, ct)
}

// vCheckDecaps analyses one decapsulation by kem, whatever its past.
func vCheckDecaps(p *vPar, kem vKEM, rng *verifrt.Rng) {
	vCheckDecapsOf(p, kem, rng, vPrv(p, "prv"), vPub(p, "pub", sidh.KeyVariantSike), verifrt.Bytes("ct", p.pk+p.msg))
}

func vCheckDecapsOf(p *vPar, kem vKEM, rng *verifrt.Rng, prv *sidh.PrivateKey, pub *sidh.PublicKey, ct []byte) {
	verifrt.Havoc("old", kem)
	snap := verifrt.Snapshot(ct)
	snapPrv := verifrt.Snapshot(prv)
	snapPub := verifrt.Snapshot(pub)
	ss := verifrt.Bytes("ss", p.k+9)
	tail := verifrt.Snapshot(ss[p.k:])
	drawn := rng.Drawn()
	err := kem.Decapsulate(ss, prv, pub, ct)
	verifrt.Assert("decapsulation returns nil", err == nil)
	verifrt.Assert("ciphertext unchanged", verifrt.Unchanged(snap, ct))
	verifrt.Assert("private key unchanged", verifrt.Unchanged(snapPrv, prv))
	verifrt.Assert("public key unchanged", verifrt.Unchanged(snapPub, pub))
	verifrt.Assert("bytes beyond the secret unchanged", verifrt.Unchanged(tail, ss[p.k:]))
	verifrt.Assert("no randomness used", rng.Drawn() == drawn)
	want := vSpecDecaps(p, prv, pub, ct)
	verifrt.Assert("decapsulated secret", verifrt.EqBytes(ss[:p.k], want))
}

// vCheckEncaps analyses one encapsulation by kem, whatever its past.
func vCheckEncaps(p *vPar, kem vKEM, rng *verifrt.Rng) {
	vCheckEncapsOf(p, kem, rng, vPub(p, "pub", sidh.KeyVariantSike))
}

func vCheckEncapsOf(p *vPar, kem vKEM, rng *verifrt.Rng, pub *sidh.PublicKey) {
	ct := verifrt.Bytes("ct", p.pk+p.msg+5)
	ss := verifrt.Bytes("ss", p.k+9)
	verifrt.Havoc("old", kem)
	snapCt := verifrt.Snapshot(ct)
	snapSs := verifrt.Snapshot(ss)
	snapPub := verifrt.Snapshot(pub)
	tailCt := verifrt.Snapshot(ct[p.pk+p.msg:])
	tailSs := verifrt.Snapshot(ss[p.k:])
	from := rng.Drawn()
	before := rng.Failed()
	verifrt.Assume(!before)
	err := kem.Encapsulate(ct, ss, pub)
	verifrt.Assert("public key unchanged", verifrt.Unchanged(snapPub, pub))
	verifrt.Assert("error exactly when the random source failed", (err != nil) == rng.Failed())
	if rng.Failed() {
		verifrt.Assert("ciphertext buffer untouched on failure", verifrt.Unchanged(snapCt, ct))
		verifrt.Assert("secret buffer untouched on failure", verifrt.Unchanged(snapSs, ss))
		return
	}
	m := make([]byte, p.msg)
	for i := range m {
		m[i] = verifrt.Byte("rng", from+i)
	}
	verifrt.Assert("message bytes drawn", rng.Drawn() == from+p.msg)
	wantCt, wantSs := vSpecEncaps(p, pub, m)
	verifrt.Assert("ciphertext size", kem.CiphertextSize() == len(wantCt))
	verifrt.Assert("secret size", kem.SharedSecretSize() == p.k)
	verifrt.Assert("encapsulated ciphertext", verifrt.EqBytes(ct[:p.pk+p.msg], wantCt))
	verifrt.Assert("encapsulated secret", verifrt.EqBytes(ss[:p.k], wantSs))
	verifrt.Assert("bytes beyond the ciphertext unchanged", verifrt.Unchanged(tailCt, ct[p.pk+p.msg:]))
	verifrt.Assert("bytes beyond the secret unchanged", verifrt.Unchanged(tailSs, ss[p.k:]))
}
