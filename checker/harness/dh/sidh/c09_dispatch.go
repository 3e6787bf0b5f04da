package sidh

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/dh/sidh/internal/p434"
	"github.com/henrydcase/nobs/dh/sidh/internal/p503"
	"github.com/henrydcase/nobs/dh/sidh/internal/p751"
	"github.com/henrydcase/nobs/verifrt"
)

// The operations each field package provides for its two torsion groups.
func vOps(p *vPar, g int) (gen func(*[3]common.Fp2, []byte), derive func(ss, prv []byte, pub *[3]common.Fp2)) {
	switch p.id {
	case Fp434:
		if g == 0 {
			return p434.PublicKeyGenA, p434.DeriveSecretA
		}
		return p434.PublicKeyGenB, p434.DeriveSecretB
	case Fp503:
		if g == 0 {
			return p503.PublicKeyGenA, p503.DeriveSecretA
		}
		return p503.PublicKeyGenB, p503.DeriveSecretB
	}
	if g == 0 {
		return p751.PublicKeyGenA, p751.DeriveSecretA
	}
	return p751.PublicKeyGenB, p751.DeriveSecretB
}

func vGenPub(p *vPar, v KeyVariant, q *vPar, w KeyVariant, way int) {
	prv := vRandPrv(p, v, "prv")
	pub := vRandPub(q, w, "pub")
	snapPrv := verifrt.Snapshot(prv)
	snapPub := verifrt.Snapshot(pub)
	refused := verifrt.Panics(func() {
		if way == 0 {
			prv.GeneratePublicKey(pub)
		} else {
			GeneratePublicKey(pub, prv)
		}
	})
	fit := p.id == q.id && vGroup(v) == vGroup(w)
	if !fit {
		verifrt.Assert("unfit public key is refused", refused)
	}
	if p.id == q.id && v == w {
		verifrt.Assert("fit public key is accepted", !refused)
	}
	verifrt.Assert("private key unchanged", verifrt.Unchanged(snapPrv, prv))
	if refused {
		verifrt.Assert("nothing written by a refused call", verifrt.Unchanged(snapPub, pub))
		return
	}
	verifrt.Assert("parameters and variant kept", pub.Params.ID == q.id && pub.KeyVariant == w)
	gen, _ := vOps(p, vGroup(v))
	want := vRandPub(q, w, "pub")
	gen(&want.affine3Pt, prv.Scalar)
	verifrt.Assert("public key of the key's own field and group", verifrt.Same(pub.affine3Pt, want.affine3Pt))
}

func vDerive(p *vPar, v KeyVariant, q *vPar, w KeyVariant, way int) {
	prv := vRandPrv(p, v, "prv")
	pub := vRandPub(q, w, "pub")
	ss := verifrt.Bytes("ss", p.ss+7)
	snapPrv := verifrt.Snapshot(prv)
	snapPub := verifrt.Snapshot(pub)
	snapSs := verifrt.Snapshot(ss)
	tail := verifrt.Snapshot(ss[p.ss:])
	refused := verifrt.Panics(func() {
		if way == 0 {
			prv.DeriveSecret(ss, pub)
		} else {
			DeriveSecret(ss, pub, prv)
		}
	})
	fit := p.id == q.id && vGroup(v) != vGroup(w)
	verifrt.Assert("exactly the fitting keys are accepted", refused == !fit)
	verifrt.Assert("private key unchanged", verifrt.Unchanged(snapPrv, prv))
	verifrt.Assert("public key unchanged", verifrt.Unchanged(snapPub, pub))
	if refused {
		verifrt.Assert("nothing written by a refused call", verifrt.Unchanged(snapSs, ss))
		return
	}
	verifrt.Assert("secret size", prv.SharedSecretSize() == p.ss)
	verifrt.Assert("bytes beyond the secret unchanged", verifrt.Unchanged(tail, ss[p.ss:]))
	_, derive := vOps(p, vGroup(v))
	want := make([]byte, p.ss)
	derive(want, prv.Scalar, &pub.affine3Pt)
	verifrt.Assert("secret of the key's own field and group", verifrt.EqBytes(ss[:p.ss], want))
}

func vAllPairs(f func(p *vPar, v KeyVariant, q *vPar, w KeyVariant, way int), p *vPar) {
	for i := range vVariants {
		for j := range vPars {
			for k := range vVariants {
				f(p, vVariants[i], &vPars[j], vVariants[k], (i+j+k)%2)
			}
		}
	}
}

// the other entry point, for equal fields
func vOtherWay(f func(p *vPar, v KeyVariant, q *vPar, w KeyVariant, way int), p *vPar) {
	for i := range vVariants {
		for k := range vVariants {
			f(p, vVariants[i], p, vVariants[k], 0)
			f(p, vVariants[i], p, vVariants[k], 1)
		}
	}
}

// keys without usable domain parameters
func verifC09Unsupported() {
	prv := vRandPrv(&vPars[0], KeyVariantSidhA, "prv")
	pub := vRandPub(&vPars[0], KeyVariantSidhB, "pub")
	verifrt.Assert("unknown field has no parameters", verifrt.Panics(func() { new(PrivateKey).Init(77, KeyVariantSidhA) }))
	id := uint8(77)
	bad := *prv.Params
	bad.ID = id
	prv.Params = &bad
	pub.Params = &bad
	ss := verifrt.Bytes("ss", 200)
	snapSs := verifrt.Snapshot(ss)
	snapPub := verifrt.Snapshot(pub)
	verifrt.Assert("derivation in an unknown field is refused", verifrt.Panics(func() { prv.DeriveSecret(ss, pub) }))
	verifrt.Assert("nothing written", verifrt.Unchanged(snapSs, ss))
	pub.KeyVariant = KeyVariantSidhA
	snapPub = verifrt.Snapshot(pub)
	verifrt.Assert("key generation in an unknown field is refused", verifrt.Panics(func() { prv.GeneratePublicKey(pub) }))
	verifrt.Assert("nothing written", verifrt.Unchanged(snapPub, pub))
}

func verifC09GenPub434()    { vAllPairs(vGenPub, &vPars[0]) }
func verifC09GenPubWay434() { vOtherWay(vGenPub, &vPars[0]) }
func verifC09Derive434()    { vAllPairs(vDerive, &vPars[0]) }
func verifC09DeriveWay434() { vOtherWay(vDerive, &vPars[0]) }
func verifC09GenPub503()    { vAllPairs(vGenPub, &vPars[1]) }
func verifC09GenPubWay503() { vOtherWay(vGenPub, &vPars[1]) }
func verifC09Derive503()    { vAllPairs(vDerive, &vPars[1]) }
func verifC09DeriveWay503() { vOtherWay(vDerive, &vPars[1]) }
func verifC09GenPub751()    { vAllPairs(vGenPub, &vPars[2]) }
func verifC09GenPubWay751() { vOtherWay(vGenPub, &vPars[2]) }
func verifC09Derive751()    { vAllPairs(vDerive, &vPars[2]) }
func verifC09DeriveWay751() { vOtherWay(vDerive, &vPars[2]) }
