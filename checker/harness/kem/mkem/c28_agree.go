package mkem

import (
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/verifrt"
)

func vWalkStart(p *vPar) {
	switch p.id {
	case sidh.Fp434:
		verifrt.Mode("p434.fp2")
	case sidh.Fp503:
		verifrt.Mode("p503.fp2")
	default:
		verifrt.Mode("p751.fp2")
	}
	verifrt.Mode("walk")
	c := common.Params(p.id)
	verifrt.Walk(&c.InitCurve)
	for i, d := range []*common.DomainParams{&c.A, &c.B} {
		verifrt.WalkPoint(i, 0, &d.AffineP)
		verifrt.WalkPoint(i, 1, &d.AffineQ)
		verifrt.WalkPoint(i, 2, &d.AffineR)
	}
}

// the receiver recovers what was encapsulated
func vRound(p *vPar) {
	vWalkStart(p)
	kem := vNew(1, p, verifrt.GoodReader("rng"))
	prv := vPrv(p, "b")
	pub := sidh.NewPublicKey(p.id, sidh.KeyVariantSike)
	prv.GeneratePublicKey(pub)
	ct := verifrt.Bytes("ct", kem.CiphertextSize())
	s1, s2 := verifrt.Bytes("s1", kem.SharedSecretSize()), verifrt.Bytes("s2", kem.SharedSecretSize())
	verifrt.Assert("encapsulation succeeds", kem.Encapsulate(ct, s1, pub) == nil)
	other := vNew(1, p, verifrt.GoodReader("rng2"))
	verifrt.Assert("decapsulation succeeds", other.Decapsulate(s2, prv, pub, ct) == nil)
	verifrt.Assert("both parties hold the same secret", verifrt.EqBytes(s1, s2))
}

// every recipient recovers what was encapsulated to all of them
func vRoundMulti(p *vPar) {
	vWalkStart(p)
	kem := new(MultiKEM)
	kem.Allocate(p.id, 2, verifrt.GoodReader("rng"))
	var prvs [2]*sidh.PrivateKey
	var pubs []*sidh.PublicKey
	for i, n := range []string{"b0", "b1"} {
		prvs[i] = vPrv(p, n)
		k := sidh.NewPublicKey(p.id, sidh.KeyVariantSike)
		prvs[i].GeneratePublicKey(k)
		pubs = append(pubs, k)
	}
	s1 := verifrt.Bytes("s1", kem.SharedSecretSize())
	verifrt.Assert("encapsulation succeeds", kem.Encapsulate(s1, pubs) == nil)
	for i := range pubs {
		s2 := verifrt.Bytes("s2", kem.SharedSecretSize())
		verifrt.Assert("decapsulation succeeds", kem.Decapsulate(s2, prvs[i], pubs[i], kem.cts[i][:p.msg]) == nil)
		verifrt.Assert("every recipient holds the same secret", verifrt.EqBytes(s1, s2))
	}
}

func verifC28Kem434()   { vRound(&vPars[0]) }
func verifC28Kem503()   { vRound(&vPars[1]) }
func verifC28Kem751()   { vRound(&vPars[2]) }
func verifC28Multi434() { vRoundMulti(&vPars[0]) }
func verifC28Multi503() { vRoundMulti(&vPars[1]) }
func verifC28Multi751() { vRoundMulti(&vPars[2]) }
