package sidh

import "github.com/henrydcase/nobs/verifrt"

// Key generation and derivation: the scalar and everything computed from it is
// secret, key types, fields and lengths are public.
func vCtKeys(p *vPar, v KeyVariant) {
	verifrt.Mode("walk")
	verifrt.Mode("ct")
	prv := NewPrivateKey(p.id, v)
	if prv.Generate(verifrt.Reader("secretRng")) != nil {
		return
	}
	verifrt.Fill("secretScalar", prv.Scalar)
	verifrt.Fill("secretS", prv.S)
	out := make([]byte, prv.Size())
	prv.Export(out)
	q := NewPrivateKey(p.id, v)
	q.Import(out)
	pub := NewPublicKey(p.id, v)
	prv.GeneratePublicKey(pub)
	pb := make([]byte, pub.Size())
	pub.Export(pb)
	verifrt.Cover("key generated")
}

func vCtDerive(p *vPar, v KeyVariant) {
	verifrt.Mode("walk")
	verifrt.Mode("ct")
	prv := NewPrivateKey(p.id, v)
	verifrt.Fill("secretScalar", prv.Scalar)
	verifrt.Fill("secretS", prv.S)
	w := KeyVariantSidhA
	if vGroup(v) == 0 {
		w = KeyVariantSidhB
	}
	pub := NewPublicKey(p.id, w)
	pub.Import(verifrt.Bytes("pub", p.pk))
	ss := make([]byte, p.ss)
	prv.DeriveSecret(ss, pub)
	verifrt.Cover("secret derived")
}

func verifC22Keys434A() { vCtKeys(&vPars[0], KeyVariantSidhA) }
func verifC22Keys434B() { vCtKeys(&vPars[0], KeyVariantSidhB) }
func verifC22Keys434S() { vCtKeys(&vPars[0], KeyVariantSike) }
func verifC22Keys503A() { vCtKeys(&vPars[1], KeyVariantSidhA) }
func verifC22Keys503B() { vCtKeys(&vPars[1], KeyVariantSidhB) }
func verifC22Keys503S() { vCtKeys(&vPars[1], KeyVariantSike) }
func verifC22Keys751A() { vCtKeys(&vPars[2], KeyVariantSidhA) }
func verifC22Keys751B() { vCtKeys(&vPars[2], KeyVariantSidhB) }
func verifC22Keys751S() { vCtKeys(&vPars[2], KeyVariantSike) }

func verifC22Derive434A() { vCtDerive(&vPars[0], KeyVariantSidhA) }
func verifC22Derive434B() { vCtDerive(&vPars[0], KeyVariantSidhB) }
func verifC22Derive503A() { vCtDerive(&vPars[1], KeyVariantSidhA) }
func verifC22Derive503B() { vCtDerive(&vPars[1], KeyVariantSidhB) }
func verifC22Derive751A() { vCtDerive(&vPars[2], KeyVariantSidhA) }
func verifC22Derive751B() { vCtDerive(&vPars[2], KeyVariantSidhB) }
