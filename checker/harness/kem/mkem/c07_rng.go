package mkem

import (
	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/verifrt"
)

// vRngEncaps analyses what becomes of the random bytes of one encapsulation.
func vRngEncaps(impl, k int) {
	p := &vPars[k]
	rng := verifrt.Reader("rng")
	kem := vNew(impl, p, rng)
	pub := vPub(p, "pub", sidh.KeyVariantSike)
	verifrt.Havoc("old", kem)
	ct, ss := verifrt.Bytes("ct", p.pk+p.msg), verifrt.Bytes("ss", p.k)
	snapCt, snapSs := verifrt.Snapshot(ct), verifrt.Snapshot(ss)
	from := rng.Drawn()
	verifrt.Assume(!rng.Failed())
	err := kem.Encapsulate(ct, ss, pub)
	verifrt.Assert("error exactly when the random source failed", (err != nil) == rng.Failed())
	if err != nil {
		verifrt.Assert("no ciphertext on failure", verifrt.Unchanged(snapCt, ct))
		verifrt.Assert("no secret on failure", verifrt.Unchanged(snapSs, ss))
		verifrt.Cover("failed")
		return
	}
	verifrt.Assert("as many random bytes as a message has", rng.Drawn() >= from+p.msg)
	verifrt.Assert("the ciphertext depends on every random byte", verifrt.UsesRng(ct, "rng", from, p.msg))
	verifrt.Assert("the secret depends on every random byte", verifrt.UsesRng(ss, "rng", from, p.msg))
	verifrt.Cover("encapsulated")
}

func vRngMulti(k, n int) {
	p := &vPars[k]
	rng := verifrt.Reader("rng")
	kem := vMulti(p, n, rng)
	var pubs []*sidh.PublicKey
	for i := 0; i < n; i++ {
		pubs = append(pubs, vPub(p, vNames[i], sidh.KeyVariantSike))
	}
	verifrt.Havoc("old", kem)
	ss := verifrt.Bytes("ss", p.k)
	snap := verifrt.Snapshot(ss)
	from := rng.Drawn()
	verifrt.Assume(!rng.Failed())
	err := kem.Encapsulate(ss, pubs)
	verifrt.Assert("error exactly when the random source failed", (err != nil) == rng.Failed())
	if err != nil {
		verifrt.Assert("no secret on failure", verifrt.Unchanged(snap, ss))
		verifrt.Cover("failed")
		return
	}
	verifrt.Assert("as many random bytes as a message has", rng.Drawn() >= from+p.msg)
	verifrt.Assert("the secret depends on every random byte", verifrt.UsesRng(ss, "rng", from, p.msg))
	verifrt.Cover("encapsulated")
}

func verifC07EncapsSidh434() { vRngEncaps(0, 0) }
func verifC07EncapsSidh503() { vRngEncaps(0, 1) }
func verifC07EncapsSidh751() { vRngEncaps(0, 2) }
func verifC07EncapsMkem434() { vRngEncaps(1, 0) }
func verifC07EncapsMkem503() { vRngEncaps(1, 1) }
func verifC07EncapsMkem751() { vRngEncaps(1, 2) }
func verifC07Multi434()      { vRngMulti(0, 1) }
func verifC07Multi503()      { vRngMulti(1, 2) }
func verifC07Multi751()      { vRngMulti(2, 3) }

// a failed generation of the ephemeral key ends the encryption
func verifC07Pke() {
	c := vPKE()
	pub := vCsidhPub("pub")
	var pt [16]byte
	verifrt.Fill("pt", pt[:])
	failed := verifrt.Panics(func() { c.Enc(pub, &pt) })
	verifrt.Assert("no ciphertext without an ephemeral key", verifrt.Implies(verifrt.Bool("csidh.keygen.failed#1"), failed))
	verifrt.Cover("encrypted or refused")
}

func verifC07PkeMulti() {
	c := vPKE()
	m := new(MultiPKE)
	m.Allocate(2, c.Rng)
	pubs := []csidh.PublicKey{*vCsidhPub("pub0"), *vCsidhPub("pub1")}
	var pt [16]byte
	verifrt.Fill("pt", pt[:])
	snap := verifrt.Snapshot(m.Cts)
	failed := verifrt.Panics(func() { m.Encrypt(pubs, &pt) })
	bad := verifrt.Bool("csidh.keygen.failed#1")
	verifrt.Assert("no ciphertext without an ephemeral key", verifrt.Implies(bad, failed))
	verifrt.Assert("no ciphertext without an ephemeral key", verifrt.Implies(bad, verifrt.Unchanged(snap, m.Cts)))
	verifrt.Cover("encrypted or refused")
}
