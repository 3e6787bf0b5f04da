package PRIME

import (
	. "github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/verifrt"
)

func vWalkSide(side int) *DomainParams {
	if side == 0 {
		return &params.A
	}
	return &params.B
}

// the public key is the image of the other side's points at the end of the walk
func vWalkKeyGen(side int) {
	verifrt.Mode("PRIME.fp2")
	verifrt.Mode("walk")
	own, other := vWalkSide(side), vWalkSide(1-side)
	prv := verifrt.Bytes("prv", int(own.SecretByteLen))
	verifrt.Walk(&params.InitCurve)
	verifrt.WalkOwn(side, prv)
	for i, d := range []*DomainParams{own, other} {
		s := side ^ i
		verifrt.WalkPoint(s, 0, &d.AffineP)
		verifrt.WalkPoint(s, 1, &d.AffineQ)
		verifrt.WalkPoint(s, 2, &d.AffineR)
	}
	key := verifrt.Snapshot(prv)
	pub := new([3]Fp2)
	verifrt.Havoc("old", pub)
	if side == 1 {
		PublicKeyGenB(pub, prv)
	} else {
		PublicKeyGenA(pub, prv)
	}
	for i := 0; i < 3; i++ {
		verifrt.WalkImage(&pub[i], 1-side, i)
	}
	verifrt.Assert("private key unchanged", verifrt.Unchanged(key, prv))
}

// the secret is the j-invariant at the end of the walk that starts from the
// curve of the public key
func vWalkDerive(side int) {
	verifrt.Mode("PRIME.fp2")
	verifrt.Mode("walk")
	own := vWalkSide(side)
	prv := verifrt.Bytes("prv", int(own.SecretByteLen))
	pub := new([3]Fp2)
	verifrt.Havoc("pub", pub)
	old := *pub
	verifrt.Walk(&params.InitCurve)
	verifrt.WalkThrough(&pub[0], &pub[1], &pub[2])
	verifrt.WalkOwn(side, prv)
	for i := 0; i < 3; i++ {
		verifrt.WalkPoint(side, i, &pub[i])
	}
	key := verifrt.Snapshot(prv)
	n := params.Bytelen
	ss := verifrt.Bytes("ss", 2*n)
	if side == 1 {
		DeriveSecretB(ss, prv, pub)
	} else {
		DeriveSecretA(ss, prv, pub)
	}
	words := (n + 7) / 8
	ok := true
	for i := 0; i < n; i++ {
		re, im := verifrt.WalkJ(i/8), verifrt.WalkJ(words+i/8)
		s := uint(8 * (i % 8))
		ok = verifrt.And(ok, verifrt.And(ss[i] == byte(re>>s), ss[n+i] == byte(im>>s)))
	}
	verifrt.Assert("the secret is the j-invariant of the last curve", ok)
	verifrt.Assert("keys unchanged", verifrt.And(verifrt.Unchanged(key, prv), verifrt.Same(pub, &old)))
}

func verifC31KeyGenAPRIME() { vWalkKeyGen(0) }
func verifC31KeyGenBPRIME() { vWalkKeyGen(1) }
func verifC31DeriveAPRIME() { vWalkDerive(0) }
func verifC31DeriveBPRIME() { vWalkDerive(1) }
