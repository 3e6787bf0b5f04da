package mkem

import (
	"github.com/henrydcase/nobs/dh/csidh"
	"github.com/henrydcase/nobs/drbg"
	"github.com/henrydcase/nobs/verifrt"
)

func vCsidhPub(name string) *csidh.PublicKey {
	pub := new(csidh.PublicKey)
	verifrt.Assert("public key imports", pub.Import(verifrt.Bytes(name, 64)))
	return pub
}

func vPKE() *PKE {
	verifrt.Mode("pke")
	c := new(PKE)
	c.Allocate(drbg.NewCtrDrbg())
	verifrt.Havoc("old", c.H)
	return c
}
