package mkem

import (
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/verifrt"
)

// The random message, the private key and everything computed from them is
// secret; the key agreement itself is judged by the harnesses of package sidh
// and is an opaque function here.
func vCtEncaps(impl int, p *vPar) {
	verifrt.Mode("ct")
	k := vNew(impl, p, verifrt.Reader("secretRng"))
	pub := vPub(p, "pub", sidh.KeyVariantSike)
	ct := make([]byte, p.pk+p.msg)
	ss := make([]byte, p.k)
	_ = k.Encapsulate(ct, ss, pub)
	verifrt.Cover("encapsulated")
	k.Reset()
	_ = k.Encapsulate(ct, ss, pub)
}

func vCtDecaps(impl int, p *vPar) {
	verifrt.Mode("ct")
	k := vNew(impl, p, verifrt.Reader("secretRng"))
	prv := vPrv(p, "secretPrv")
	pub := vPub(p, "pub", sidh.KeyVariantSike)
	ct := verifrt.Bytes("ct", p.pk+p.msg)
	ss := make([]byte, p.k)
	_ = k.Decapsulate(ss, prv, pub, ct)
	verifrt.Cover("decapsulated")
	k.Reset()
	_ = k.Decapsulate(ss, prv, pub, ct)
}

func verifC22Encaps434() { vCtEncaps(0, &vPars[0]) }
func verifC22Encaps503() { vCtEncaps(0, &vPars[1]) }
func verifC22Encaps751() { vCtEncaps(0, &vPars[2]) }
func verifC22Decaps434() { vCtDecaps(0, &vPars[0]) }
func verifC22Decaps503() { vCtDecaps(0, &vPars[1]) }
func verifC22Decaps751() { vCtDecaps(0, &vPars[2]) }

func verifC22MkemEncaps434() { vCtEncaps(1, &vPars[0]) }
func verifC22MkemEncaps503() { vCtEncaps(1, &vPars[1]) }
func verifC22MkemEncaps751() { vCtEncaps(1, &vPars[2]) }
func verifC22MkemDecaps434() { vCtDecaps(1, &vPars[0]) }
func verifC22MkemDecaps503() { vCtDecaps(1, &vPars[1]) }
func verifC22MkemDecaps751() { vCtDecaps(1, &vPars[2]) }

func vCtMulti(p *vPar) {
	verifrt.Mode("ct")
	var k MultiKEM
	k.Allocate(p.id, 2, verifrt.Reader("secretRng"))
	pub := []*sidh.PublicKey{vPub(p, "pub0", sidh.KeyVariantSike), vPub(p, "pub1", sidh.KeyVariantSike)}
	ss := make([]byte, p.k)
	_ = k.Encapsulate(ss, pub)
	verifrt.Cover("encapsulated for two")
	prv := vPrv(p, "secretPrv")
	ct := verifrt.Bytes("ct", k.SharedSecretSize())
	_ = k.Decapsulate(ss, prv, pub[0], ct)
	verifrt.Cover("decapsulated")
}

func verifC22Multi434() { vCtMulti(&vPars[0]) }
func verifC22Multi503() { vCtMulti(&vPars[1]) }
func verifC22Multi751() { vCtMulti(&vPars[2]) }
