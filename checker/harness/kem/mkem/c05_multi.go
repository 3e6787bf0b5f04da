package mkem

import (
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/verifrt"
)

// The three domain separators of the scheme, as values.
var vG1, vG2, vG3 = []byte{1}, []byte{2}, []byte{3}

func vMultiEncaps(p *vPar, n int, kem *MultiKEM, rng *verifrt.Rng) {
	var pubs []*sidh.PublicKey
	for i := 0; i < n; i++ {
		pubs = append(pubs, vPub(p, vNames[i], sidh.KeyVariantSike))
	}
	verifrt.Havoc("old", kem)
	ss := verifrt.Bytes("ss", p.k+7)
	sss := verifrt.Snapshot(ss)
	tail := verifrt.Snapshot(ss[p.k:])
	snapPubs := verifrt.Snapshot(pubs)
	from := rng.Drawn()
	verifrt.Assume(!rng.Failed())
	err := kem.Encapsulate(ss, pubs)
	verifrt.Assert("recipient keys unchanged", verifrt.Unchanged(snapPubs, pubs))
	verifrt.Assert("error exactly when the random source failed", (err != nil) == rng.Failed())
	if rng.Failed() {
		verifrt.Assert("secret buffer untouched on failure", verifrt.Unchanged(sss, ss))
		return
	}
	m := make([]byte, p.msg)
	for i := range m {
		m[i] = verifrt.Byte("rng", from+i)
	}
	verifrt.Assert("message bytes drawn", rng.Drawn() == from+p.msg)
	sk := vScalarA(p, vHash(p.bytesA, vG1, m))
	verifrt.Assert("ephemeral key", verifrt.EqBytes(kem.ct0[:p.pk], vPubA(p, sk)))
	for i := 0; i < n; i++ {
		c := vXor(m, vHash(p.msg, vG2, vAgreeA(p, sk, pubs[i])))
		verifrt.Assert("recipient ciphertext", verifrt.EqBytes(kem.cts[i][:p.msg], c))
	}
	verifrt.Assert("secret", verifrt.EqBytes(ss[:p.k], vHash(p.k, vG3, m)))
	verifrt.Assert("bytes beyond the secret unchanged", verifrt.Unchanged(tail, ss[p.k:]))
}

func vMultiDecaps(p *vPar, kem *MultiKEM) {
	prv := vPrv(p, "prv")
	pub := vPub(p, "pub", sidh.KeyVariantSike)
	verifrt.Havoc("old", kem)
	verifrt.Fill("ct0", kem.ct0[:])
	ct := verifrt.Bytes("ct", p.msg)
	ss := verifrt.Bytes("ss", p.k+7)
	tail := verifrt.Snapshot(ss[p.k:])
	snapCt, snapPrv, snapPub := verifrt.Snapshot(ct), verifrt.Snapshot(prv), verifrt.Snapshot(pub)
	ct0 := make([]byte, p.pk)
	copy(ct0, kem.ct0[:])
	err := kem.Decapsulate(ss, prv, pub, ct)
	verifrt.Assert("multi decapsulation returns nil", err == nil)
	verifrt.Assert("ciphertext unchanged", verifrt.Unchanged(snapCt, ct))
	verifrt.Assert("private key unchanged", verifrt.Unchanged(snapPrv, prv))
	verifrt.Assert("public key unchanged", verifrt.Unchanged(snapPub, pub))
	verifrt.Assert("ephemeral key kept", verifrt.EqBytes(kem.ct0[:p.pk], ct0))
	m := vXor(ct, vHash(p.msg, vG2, vAgreeB(p, prv, ct0)))
	sk := vScalarA(p, vHash(p.bytesA, vG1, m))
	c0 := vPubA(p, sk)
	c1 := vXor(m, vHash(p.msg, vG2, vAgreeA(p, sk, pub)))
	same := verifrt.And(verifrt.EqBytes(c0, ct0), verifrt.EqBytes(c1, ct))
	k := make([]byte, p.msg)
	for i := range k {
		k[i] = verifrt.Select(same, m[i], prv.S[i])
	}
	verifrt.Assert("multi decapsulated secret", verifrt.EqBytes(ss[:p.k], vHash(p.k, vG3, k)))
	verifrt.Assert("bytes beyond the secret unchanged", verifrt.Unchanged(tail, ss[p.k:]))
}

func verifC05Encaps434x1() {
	rng := verifrt.Reader("rng")
	vMultiEncaps(&vPars[0], 1, vMulti(&vPars[0], 1, rng), rng)
}

func verifC05Encaps434x2() {
	rng := verifrt.Reader("rng")
	vMultiEncaps(&vPars[0], 2, vMulti(&vPars[0], 2, rng), rng)
}

func verifC05Encaps434x3() {
	rng := verifrt.Reader("rng")
	vMultiEncaps(&vPars[0], 3, vMulti(&vPars[0], 3, rng), rng)
}

func verifC05Decaps434() { vMultiDecaps(&vPars[0], vMulti(&vPars[0], 2, verifrt.GoodReader("rng"))) }

// fewer recipients than allocated
func verifC05Fewer434() {
	rng := verifrt.GoodReader("rng")
	vMultiEncaps(&vPars[0], 2, vMulti(&vPars[0], 4, rng), rng)
}

func verifC05Encaps503x1() {
	rng := verifrt.Reader("rng")
	vMultiEncaps(&vPars[1], 1, vMulti(&vPars[1], 1, rng), rng)
}

func verifC05Encaps503x2() {
	rng := verifrt.Reader("rng")
	vMultiEncaps(&vPars[1], 2, vMulti(&vPars[1], 2, rng), rng)
}

func verifC05Encaps503x3() {
	rng := verifrt.Reader("rng")
	vMultiEncaps(&vPars[1], 3, vMulti(&vPars[1], 3, rng), rng)
}

func verifC05Decaps503() { vMultiDecaps(&vPars[1], vMulti(&vPars[1], 2, verifrt.GoodReader("rng"))) }

// fewer recipients than allocated
func verifC05Fewer503() {
	rng := verifrt.GoodReader("rng")
	vMultiEncaps(&vPars[1], 2, vMulti(&vPars[1], 4, rng), rng)
}

func verifC05Encaps751x1() {
	rng := verifrt.Reader("rng")
	vMultiEncaps(&vPars[2], 1, vMulti(&vPars[2], 1, rng), rng)
}

func verifC05Encaps751x2() {
	rng := verifrt.Reader("rng")
	vMultiEncaps(&vPars[2], 2, vMulti(&vPars[2], 2, rng), rng)
}

func verifC05Encaps751x3() {
	rng := verifrt.Reader("rng")
	vMultiEncaps(&vPars[2], 3, vMulti(&vPars[2], 3, rng), rng)
}

func verifC05Decaps751() { vMultiDecaps(&vPars[2], vMulti(&vPars[2], 2, verifrt.GoodReader("rng"))) }

// fewer recipients than allocated
func verifC05Fewer751() {
	rng := verifrt.GoodReader("rng")
	vMultiEncaps(&vPars[2], 2, vMulti(&vPars[2], 4, rng), rng)
}

// one recipient more than fits a byte
func verifC05Many434() {
	rng := verifrt.GoodReader("rng")
	vMultiEncaps(&vPars[0], 260, vMulti(&vPars[0], 260, rng), rng)
}

func verifC05Many503() {
	rng := verifrt.GoodReader("rng")
	vMultiEncaps(&vPars[1], 17, vMulti(&vPars[1], 20, rng), rng)
}

func verifC05Many751() {
	rng := verifrt.GoodReader("rng")
	vMultiEncaps(&vPars[2], 33, vMulti(&vPars[2], 33, rng), rng)
}
