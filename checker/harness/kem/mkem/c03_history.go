package mkem

import (
	"github.com/henrydcase/nobs/dh/sidh"
	"github.com/henrydcase/nobs/verifrt"
)

// vUse performs one earlier operation with unrelated arguments.
func vUse(p *vPar, kem vKEM, op int) {
	ct := verifrt.Bytes("ct0", p.pk+p.msg)
	ss := verifrt.Bytes("ss0", p.k)
	switch op {
	case 0:
		kem.Encapsulate(ct, ss, vPub(p, "pub0", sidh.KeyVariantSike))
	case 1:
		kem.Decapsulate(ss, vPrv(p, "prv0"), vPub(p, "pub0", sidh.KeyVariantSike), ct)
	case 2:
		verifrt.Panics(func() { kem.Decapsulate(ss, vPrv(p, "prv0"), vPub(p, "pub0", sidh.KeyVariantSike), ct[1:]) })
	case 3:
		kem.Reset()
	case 4:
		kem.Encapsulate(ct, ss, vPub(p, "pub0", sidh.KeyVariantSike))
		kem.Reset()
		kem.Decapsulate(ss, vPrv(p, "prv0"), vPub(p, "pub0", sidh.KeyVariantSike), ct)
	}
}

// vHistory: an earlier operation, then a checked one.
func vHistory(impl int, p *vPar, op int) {
	rng := verifrt.GoodReader("rng")
	kem := vNew(impl, p, rng)
	vUse(p, kem, op)
	vCheckDecaps(p, kem, rng)
	kem = vNew(impl, p, rng)
	vUse(p, kem, op)
	vCheckEncaps(p, kem, rng)
}

// vAfterFailure: a failed encapsulation, then a checked decapsulation.
func vAfterFailure(impl int, p *vPar) {
	rng := verifrt.Reader("rng")
	kem := vNew(impl, p, rng)
	vUse(p, kem, 0)
	vCheckDecaps(p, kem, rng)
}

// vReallocate: an object allocated again, for another field, is as good as new.
func vReallocate(impl int, p, old *vPar) {
	rng := verifrt.GoodReader("rng")
	kem := vNew(impl, old, rng)
	vUse(old, kem, 0)
	kem.Allocate(p.id, rng)
	vCheckDecaps(p, kem, rng)
	vCheckEncaps(p, kem, rng)
}

// vSameObjects: the caller's own key objects and buffer are used again with new content.
func vSameObjects(impl int, p *vPar) {
	rng := verifrt.GoodReader("rng")
	kem := vNew(impl, p, rng)
	ct := verifrt.Bytes("ct0", p.pk+p.msg)
	ss := verifrt.Bytes("ss0", p.k)
	pub, prv := vPub(p, "pub0", sidh.KeyVariantSike), vPrv(p, "prv0")
	kem.Encapsulate(ct, ss, pub)
	pub.Import(verifrt.Bytes("pub1", p.pk))
	vCheckEncapsOf(p, kem, rng, pub)
	verifrt.Fill("ct1", ct)
	kem.Decapsulate(ss, prv, pub, ct)
	pub.Import(verifrt.Bytes("pub2", p.pk))
	prv.Import(verifrt.Bytes("prv2", p.msg+p.bytesB))
	verifrt.Fill("ct2", ct)
	vCheckDecapsOf(p, kem, rng, prv, pub, ct)
	prv.Import(verifrt.Bytes("prv3", p.msg+p.bytesB))
	vCheckDecapsOf(p, kem, rng, prv, pub, ct)
	pub.Import(verifrt.Bytes("pub3", p.pk))
	vCheckDecapsOf(p, kem, rng, prv, pub, ct)
	verifrt.Fill("ct3", ct)
	vCheckDecapsOf(p, kem, rng, prv, pub, ct)
	vCheckEncapsOf(p, kem, rng, pub)
}

func verifC03SameObjectsSidh434() { vSameObjects(0, &vPars[0]) }
func verifC03SameObjectsSidh503() { vSameObjects(0, &vPars[1]) }
func verifC03SameObjectsSidh751() { vSameObjects(0, &vPars[2]) }
func verifC03SameObjectsMkem434() { vSameObjects(1, &vPars[0]) }
func verifC03SameObjectsMkem503() { vSameObjects(1, &vPars[1]) }
func verifC03SameObjectsMkem751() { vSameObjects(1, &vPars[2]) }
func verifC03HistorySidh434Op0()  { vHistory(0, &vPars[0], 0) }
func verifC03HistorySidh434Op1()  { vHistory(0, &vPars[0], 1) }
func verifC03HistorySidh434Op2()  { vHistory(0, &vPars[0], 2) }
func verifC03HistorySidh434Op3()  { vHistory(0, &vPars[0], 3) }
func verifC03HistorySidh434Op4()  { vHistory(0, &vPars[0], 4) }
func verifC03FailureSidh434()     { vAfterFailure(0, &vPars[0]) }
func verifC03ReallocSidh434()     { vReallocate(0, &vPars[0], &vPars[1]) }
func verifC03HistorySidh503Op0()  { vHistory(0, &vPars[1], 0) }
func verifC03HistorySidh503Op1()  { vHistory(0, &vPars[1], 1) }
func verifC03HistorySidh503Op2()  { vHistory(0, &vPars[1], 2) }
func verifC03HistorySidh503Op3()  { vHistory(0, &vPars[1], 3) }
func verifC03HistorySidh503Op4()  { vHistory(0, &vPars[1], 4) }
func verifC03FailureSidh503()     { vAfterFailure(0, &vPars[1]) }
func verifC03ReallocSidh503()     { vReallocate(0, &vPars[1], &vPars[2]) }
func verifC03HistorySidh751Op0()  { vHistory(0, &vPars[2], 0) }
func verifC03HistorySidh751Op1()  { vHistory(0, &vPars[2], 1) }
func verifC03HistorySidh751Op2()  { vHistory(0, &vPars[2], 2) }
func verifC03HistorySidh751Op3()  { vHistory(0, &vPars[2], 3) }
func verifC03HistorySidh751Op4()  { vHistory(0, &vPars[2], 4) }
func verifC03FailureSidh751()     { vAfterFailure(0, &vPars[2]) }
func verifC03ReallocSidh751()     { vReallocate(0, &vPars[2], &vPars[0]) }
func verifC03HistoryMkem434Op0()  { vHistory(1, &vPars[0], 0) }
func verifC03HistoryMkem434Op1()  { vHistory(1, &vPars[0], 1) }
func verifC03HistoryMkem434Op2()  { vHistory(1, &vPars[0], 2) }
func verifC03HistoryMkem434Op3()  { vHistory(1, &vPars[0], 3) }
func verifC03HistoryMkem434Op4()  { vHistory(1, &vPars[0], 4) }
func verifC03FailureMkem434()     { vAfterFailure(1, &vPars[0]) }
func verifC03ReallocMkem434()     { vReallocate(1, &vPars[0], &vPars[1]) }
func verifC03HistoryMkem503Op0()  { vHistory(1, &vPars[1], 0) }
func verifC03HistoryMkem503Op1()  { vHistory(1, &vPars[1], 1) }
func verifC03HistoryMkem503Op2()  { vHistory(1, &vPars[1], 2) }
func verifC03HistoryMkem503Op3()  { vHistory(1, &vPars[1], 3) }
func verifC03HistoryMkem503Op4()  { vHistory(1, &vPars[1], 4) }
func verifC03FailureMkem503()     { vAfterFailure(1, &vPars[1]) }
func verifC03ReallocMkem503()     { vReallocate(1, &vPars[1], &vPars[2]) }
func verifC03HistoryMkem751Op0()  { vHistory(1, &vPars[2], 0) }
func verifC03HistoryMkem751Op1()  { vHistory(1, &vPars[2], 1) }
func verifC03HistoryMkem751Op2()  { vHistory(1, &vPars[2], 2) }
func verifC03HistoryMkem751Op3()  { vHistory(1, &vPars[2], 3) }
func verifC03HistoryMkem751Op4()  { vHistory(1, &vPars[2], 4) }
func verifC03FailureMkem751()     { vAfterFailure(1, &vPars[2]) }
func verifC03ReallocMkem751()     { vReallocate(1, &vPars[2], &vPars[0]) }
