package csidh

import "github.com/henrydcase/nobs/verifrt"

// vDraws is a run with elements that are drawn again and inconclusive points.
var vDraws = []vDraw{{}, {below: true, lo: 0, hi: 74}, {below: true, lo: 40, hi: 41}, {}, {below: true, side: 1}, {below: true, side: 1}, {below: true, lo: 3, hi: 9}}

func vBegin() {
	verifrt.Mode("csidh.field")
	verifrt.Mode("csidh.order")
	vDeclare(vDraws)
}

func verifC07CsidhPublic() {
	vBegin()
	prv, pub := vExps(vMixed), new(PublicKey)
	var zero fp
	verifrt.CurveBase(&zero)
	rng := verifrt.Reader("rng")
	failed := verifrt.Panics(func() { GeneratePublicKey(pub, prv, rng) })
	verifrt.Assert("panics exactly when the random source fails", failed == rng.Failed())
	if !failed {
		vAction(&pub.a, vMixed)
		verifrt.Assert("every element drawn in full", rng.Drawn() == 64*verifrt.DrawsUsed())
		verifrt.Cover("enough randomness")
	}
}

func verifC07CsidhValidate() {
	vBegin()
	pub := new(PublicKey)
	verifrt.Havoc("pub", pub)
	verifrt.CurveBase(&pub.a)
	rng := verifrt.Reader("rng")
	accepted := false
	failed := verifrt.Panics(func() { accepted = Validate(pub, rng) })
	verifrt.Assert("panics exactly when the random source fails", failed == rng.Failed())
	verifrt.Assert("nothing is accepted without randomness", !accepted || rng.Drawn() >= 64)
	if accepted {
		verifrt.Cover("accepted")
	}
}

func verifC07CsidhDerive() {
	vBegin()
	prv, pub := vExps(vMixed), new(PublicKey)
	verifrt.Havoc("pub", pub)
	verifrt.CurveBase(&pub.a)
	var out [64]byte
	verifrt.Havoc("out", &out)
	snap := verifrt.Snapshot(out)
	rng := verifrt.Reader("rng")
	ok := false
	failed := verifrt.Panics(func() { ok = DeriveSecret(&out, pub, prv, rng) })
	verifrt.Assert("panics exactly when the random source fails", failed == rng.Failed())
	verifrt.Assert("no secret without randomness", verifrt.Implies(failed, !ok && verifrt.Unchanged(snap, out)))
	if ok {
		verifrt.Cover("derived")
	}
}
