package mkem

import (
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/verifrt"
)

func vVariant(name string) sidh.KeyVariant { return sidh.KeyVariant(verifrt.Choose(name, 0, 7)) }

func vRejectEncaps(impl int, p *vPar) {
	kem := vNew(impl, p, verifrt.GoodReader("rng"))
	vRejectEncapsBy(p, kem, true)
}

func vRejectEncapsBy(p *vPar, kem vKEM, allocated bool) {
	pub := vPub(p, "pub", sidh.KeyVariantSike)
	pub.KeyVariant = vVariant("variant")
	ct := verifrt.BytesRange("ct", p.pk+p.msg-3, p.pk+p.msg+2)
	ss := verifrt.BytesRange("ss", 0, p.k+3)
	bad := !allocated || pub.KeyVariant != sidh.KeyVariantSike || len(ct) < p.pk+p.msg || len(ss) < p.k
	sct, sss := verifrt.Snapshot(ct), verifrt.Snapshot(ss)
	var err error
	panicked := verifrt.Panics(func() { err = kem.Encapsulate(ct, ss, pub) })
	if bad {
		verifrt.Assert("malformed encapsulation panics", panicked)
		verifrt.Assert("ciphertext buffer untouched", verifrt.Unchanged(sct, ct))
		verifrt.Assert("secret buffer untouched", verifrt.Unchanged(sss, ss))
		return
	}
	verifrt.Assert("well-formed encapsulation is accepted", !panicked && err == nil)
}

func vRejectDecaps(impl int, p *vPar) {
	kem := vNew(impl, p, verifrt.GoodReader("rng"))
	vRejectDecapsBy(p, kem, true)
}

func vRejectDecapsBy(p *vPar, kem vKEM, allocated bool) {
	pub := vPub(p, "pub", sidh.KeyVariantSike)
	prv := vPrv(p, "prv")
	pub.KeyVariant = vVariant("variant")
	prv.KeyVariant = vVariant("variant2")
	ct := verifrt.BytesRange("ct", p.pk+p.msg-2, p.pk+p.msg+2)
	ss := verifrt.BytesRange("ss", 0, p.k+3)
	bad := !allocated || pub.KeyVariant != sidh.KeyVariantSike || prv.KeyVariant != sidh.KeyVariantSike ||
		len(ct) != p.pk+p.msg || len(ss) < p.k
	sss := verifrt.Snapshot(ss)
	sct := verifrt.Snapshot(ct)
	var err error
	panicked := verifrt.Panics(func() { err = kem.Decapsulate(ss, prv, pub, ct) })
	verifrt.Assert("ciphertext unchanged", verifrt.Unchanged(sct, ct))
	if bad {
		verifrt.Assert("malformed decapsulation panics", panicked)
		verifrt.Assert("secret buffer untouched", verifrt.Unchanged(sss, ss))
		return
	}
	verifrt.Assert("well-formed decapsulation is accepted", !panicked && err == nil)
}

// vRejectEdge: lengths far from the limits.
func vRejectEdge(impl int, p *vPar) {
	kem := vNew(impl, p, verifrt.GoodReader("rng"))
	pub := vPub(p, "pub", sidh.KeyVariantSike)
	prv := vPrv(p, "prv")
	ss := verifrt.Bytes("ss", p.k)
	s := verifrt.Snapshot(ss)
	for _, n := range []int{0, 1, p.pk - 1, p.pk, p.pk + 1, p.pk + p.msg + 40, 2 * (p.pk + p.msg)} {
		ct := make([]byte, n)
		verifrt.Assert("ciphertext of the wrong length rejected", verifrt.Panics(func() { kem.Decapsulate(ss, prv, pub, ct) }))
		if n < p.pk+p.msg {
			verifrt.Assert("short ciphertext buffer rejected", verifrt.Panics(func() { kem.Encapsulate(ct, ss, pub) }))
		}
	}
	verifrt.Assert("empty ciphertext rejected", verifrt.Panics(func() { kem.Decapsulate(ss, prv, pub, nil) }))
	verifrt.Assert("no secret buffer rejected", verifrt.Panics(func() { kem.Decapsulate(nil, prv, pub, make([]byte, p.pk+p.msg)) }))
	verifrt.Assert("no secret buffer rejected for encapsulation", verifrt.Panics(func() { kem.Encapsulate(make([]byte, p.pk+p.msg), nil, pub) }))
	verifrt.Assert("secret buffer untouched", verifrt.Unchanged(s, ss))
}

func vUnalloc(impl int) vKEM {
	if impl == 0 {
		return &sidh.KEM{}
	}
	return &KEM{}
}

func verifC04EncapsSidh434()     { vRejectEncaps(0, &vPars[0]) }
func verifC04DecapsSidh434()     { vRejectDecaps(0, &vPars[0]) }
func verifC04EdgeSidh434()       { vRejectEdge(0, &vPars[0]) }
func verifC04EncapsSidh503()     { vRejectEncaps(0, &vPars[1]) }
func verifC04DecapsSidh503()     { vRejectDecaps(0, &vPars[1]) }
func verifC04EdgeSidh503()       { vRejectEdge(0, &vPars[1]) }
func verifC04EncapsSidh751()     { vRejectEncaps(0, &vPars[2]) }
func verifC04DecapsSidh751()     { vRejectDecaps(0, &vPars[2]) }
func verifC04EdgeSidh751()       { vRejectEdge(0, &vPars[2]) }
func verifC04UnallocEncapsSidh() { vUnallocEncaps(vUnalloc(0)) }
func verifC04UnallocDecapsSidh() { vUnallocDecaps(vUnalloc(0)) }
func verifC04EncapsMkem434()     { vRejectEncaps(1, &vPars[0]) }
func verifC04DecapsMkem434()     { vRejectDecaps(1, &vPars[0]) }
func verifC04EdgeMkem434()       { vRejectEdge(1, &vPars[0]) }
func verifC04EncapsMkem503()     { vRejectEncaps(1, &vPars[1]) }
func verifC04DecapsMkem503()     { vRejectDecaps(1, &vPars[1]) }
func verifC04EdgeMkem503()       { vRejectEdge(1, &vPars[1]) }
func verifC04EncapsMkem751()     { vRejectEncaps(1, &vPars[2]) }
func verifC04DecapsMkem751()     { vRejectDecaps(1, &vPars[2]) }
func verifC04EdgeMkem751()       { vRejectEdge(1, &vPars[2]) }
func verifC04UnallocEncapsMkem() { vUnallocEncaps(vUnalloc(1)) }
func verifC04UnallocDecapsMkem() { vUnallocDecaps(vUnalloc(1)) }

func vUnallocEncaps(kem vKEM) {
	p := &vPars[0]
	ct, ss := verifrt.Bytes("ct", p.pk+p.msg), verifrt.Bytes("ss", p.k)
	sct, sss := verifrt.Snapshot(ct), verifrt.Snapshot(ss)
	verifrt.Assert("encapsulation with an unallocated object panics",
		verifrt.Panics(func() { kem.Encapsulate(ct, ss, vPub(p, "pub", sidh.KeyVariantSike)) }))
	verifrt.Assert("ciphertext buffer untouched", verifrt.Unchanged(sct, ct))
	verifrt.Assert("secret buffer untouched", verifrt.Unchanged(sss, ss))
}

func vUnallocDecaps(kem vKEM) {
	p := &vPars[0]
	ct, ss := verifrt.Bytes("ct", p.pk+p.msg), verifrt.Bytes("ss", p.k)
	sss := verifrt.Snapshot(ss)
	verifrt.Assert("decapsulation with an unallocated object panics",
		verifrt.Panics(func() { kem.Decapsulate(ss, vPrv(p, "prv"), vPub(p, "pub", sidh.KeyVariantSike), ct) }))
	verifrt.Assert("secret buffer untouched", verifrt.Unchanged(sss, ss))
}

// ---- multi-recipient KEM

func vMultiReject(p *vPar, n int, which int) {
	var kem MultiKEM
	kem.Allocate(p.id, uint(n), verifrt.GoodReader("rng"))
	var pubs []*sidh.PublicKey
	for i := 0; i < n; i++ {
		pubs = append(pubs, vPub(p, "pub", sidh.KeyVariantSike))
	}
	pubs[which].KeyVariant = vVariant("variant")
	ss := verifrt.BytesRange("ss", 0, p.k+3)
	bad := pubs[which].KeyVariant != sidh.KeyVariantSike || len(ss) < p.k
	sss := verifrt.Snapshot(ss)
	var err error
	panicked := verifrt.Panics(func() { err = kem.Encapsulate(ss, pubs) })
	if bad {
		verifrt.Assert("malformed multi encapsulation panics", panicked)
		verifrt.Assert("secret buffer untouched", verifrt.Unchanged(sss, ss))
		return
	}
	verifrt.Assert("well-formed multi encapsulation is accepted", !panicked && err == nil)
}

func vMultiRejectDecaps(p *vPar) {
	var kem MultiKEM
	kem.Allocate(p.id, 2, verifrt.GoodReader("rng"))
	pub := vPub(p, "pub", sidh.KeyVariantSike)
	prv := vPrv(p, "prv")
	pub.KeyVariant = vVariant("variant")
	prv.KeyVariant = vVariant("variant2")
	ct := verifrt.BytesRange("ct", 0, p.msg+3)
	ss := verifrt.BytesRange("ss", 0, p.k+3)
	bad := pub.KeyVariant != sidh.KeyVariantSike || prv.KeyVariant != sidh.KeyVariantSike ||
		len(ct) != p.k || len(ss) < p.k
	sss := verifrt.Snapshot(ss)
	var err error
	panicked := verifrt.Panics(func() { err = kem.Decapsulate(ss, prv, pub, ct) })
	if bad {
		verifrt.Assert("malformed multi decapsulation panics", panicked)
		verifrt.Assert("secret buffer untouched", verifrt.Unchanged(sss, ss))
		return
	}
	verifrt.Assert("well-formed multi decapsulation is accepted", !panicked && err == nil)
}

func verifC04MultiUnalloc() {
	p := &vPars[0]
	var kem MultiKEM
	ss := verifrt.Bytes("ss", p.k)
	s := verifrt.Snapshot(ss)
	verifrt.Assert("unallocated multi encapsulation panics", verifrt.Panics(func() {
		kem.Encapsulate(ss, []*sidh.PublicKey{vPub(p, "pub", sidh.KeyVariantSike)})
	}))
	verifrt.Assert("unallocated multi decapsulation panics", verifrt.Panics(func() {
		kem.Decapsulate(ss, vPrv(p, "prv"), vPub(p, "pub", sidh.KeyVariantSike), make([]byte, p.k))
	}))
	verifrt.Assert("secret buffer untouched", verifrt.Unchanged(s, ss))
}

func verifC04Multi1x434()     { vMultiReject(&vPars[0], 1, 0) }
func verifC04Multi2x434()     { vMultiReject(&vPars[0], 2, 1) }
func verifC04MultiDecaps434() { vMultiRejectDecaps(&vPars[0]) }
func verifC04Multi1x503()     { vMultiReject(&vPars[1], 1, 0) }
func verifC04Multi2x503()     { vMultiReject(&vPars[1], 2, 1) }
func verifC04MultiDecaps503() { vMultiRejectDecaps(&vPars[1]) }
func verifC04Multi1x751()     { vMultiReject(&vPars[2], 1, 0) }
func verifC04Multi2x751()     { vMultiReject(&vPars[2], 2, 1) }
func verifC04MultiDecaps751() { vMultiRejectDecaps(&vPars[2]) }
