package sidh

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/verifrt"
)

func vWalkStart(p *vPar) {
	switch p.id {
	case Fp434:
		verifrt.Mode("p434.fp2")
	case Fp503:
		verifrt.Mode("p503.fp2")
	default:
		verifrt.Mode("p751.fp2")
	}
	verifrt.Mode("walk")
	c := common.Params(p.id)
	verifrt.Walk(&c.InitCurve)
	for i, d := range []*common.DomainParams{&c.A, &c.B} {
		verifrt.WalkPoint(i, 0, &d.AffineP)
		verifrt.WalkPoint(i, 1, &d.AffineQ)
		verifrt.WalkPoint(i, 2, &d.AffineR)
	}
}

// Both parties generate public keys and derive a secret; with sent, public keys
// travel as bytes.
func vAgree(p *vPar, w KeyVariant, sent bool) {
	vWalkStart(p)
	a, b := vRandPrv(p, KeyVariantSidhA, "a"), vRandPrv(p, w, "b")
	pa, pb := NewPublicKey(p.id, KeyVariantSidhA), NewPublicKey(p.id, w)
	a.GeneratePublicKey(pa)
	b.GeneratePublicKey(pb)
	if sent {
		ra, rb := vRandPub(p, KeyVariantSidhA, "ra"), vRandPub(p, w, "rb")
		buf := verifrt.Bytes("buf", p.pk)
		pa.Export(buf)
		verifrt.Assert("A's public key is imported", ra.Import(buf) == nil)
		pb.Export(buf)
		verifrt.Assert("B's public key is imported", rb.Import(buf) == nil)
		pa, pb = ra, rb
	}
	sa, sb := verifrt.Bytes("sa", p.ss), verifrt.Bytes("sb", p.ss)
	a.DeriveSecret(sa, pb)
	b.DeriveSecret(sb, pa)
	verifrt.Assert("both parties hold the same secret", verifrt.EqBytes(sa, sb))
}

func verifC28Sidh434() { vAgree(&vPars[0], KeyVariantSidhB, false) }
func verifC28Sidh503() { vAgree(&vPars[1], KeyVariantSidhB, false) }
func verifC28Sidh751() { vAgree(&vPars[2], KeyVariantSidhB, false) }
func verifC28Sent434() { vAgree(&vPars[0], KeyVariantSidhB, true) }
func verifC28Sent503() { vAgree(&vPars[1], KeyVariantSike, true) }
func verifC28Sent751() { vAgree(&vPars[2], KeyVariantSidhB, true) }

// the receiver recovers what was encapsulated
func vKem(p *vPar) {
	vWalkStart(p)
	kem := new(KEM)
	kem.Allocate(p.id, verifrt.GoodReader("rng"))
	prv := vRandPrv(p, KeyVariantSike, "b")
	pub, got := NewPublicKey(p.id, KeyVariantSike), vRandPub(p, KeyVariantSike, "got")
	prv.GeneratePublicKey(pub)
	buf := verifrt.Bytes("buf", p.pk)
	pub.Export(buf)
	verifrt.Assert("the public key is imported", got.Import(buf) == nil)
	ct := verifrt.Bytes("ct", kem.CiphertextSize())
	s1, s2 := verifrt.Bytes("s1", kem.SharedSecretSize()), verifrt.Bytes("s2", kem.SharedSecretSize())
	verifrt.Assert("encapsulation succeeds", kem.Encapsulate(ct, s1, got) == nil)
	other := new(KEM)
	other.Allocate(p.id, verifrt.GoodReader("rng2"))
	verifrt.Assert("decapsulation succeeds", other.Decapsulate(s2, prv, pub, ct) == nil)
	verifrt.Assert("both parties hold the same secret", verifrt.EqBytes(s1, s2))
}

func verifC28Kem434() { vKem(&vPars[0]) }
func verifC28Kem503() { vKem(&vPars[1]) }
func verifC28Kem751() { vKem(&vPars[2]) }
