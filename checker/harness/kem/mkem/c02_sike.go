package mkem

import "github.com/henrydcase/nobs/verifrt"

func verifC02EncapsSidh434() {
	rng := verifrt.Reader("rng")
	vCheckEncaps(&vPars[0], vNew(0, &vPars[0], rng), rng)
}

func verifC02EncapsSidh503() {
	rng := verifrt.Reader("rng")
	vCheckEncaps(&vPars[1], vNew(0, &vPars[1], rng), rng)
}

func verifC02EncapsSidh751() {
	rng := verifrt.Reader("rng")
	vCheckEncaps(&vPars[2], vNew(0, &vPars[2], rng), rng)
}

func verifC02EncapsMkem434() {
	rng := verifrt.Reader("rng")
	vCheckEncaps(&vPars[0], vNew(1, &vPars[0], rng), rng)
}

func verifC02EncapsMkem503() {
	rng := verifrt.Reader("rng")
	vCheckEncaps(&vPars[1], vNew(1, &vPars[1], rng), rng)
}

func verifC02EncapsMkem751() {
	rng := verifrt.Reader("rng")
	vCheckEncaps(&vPars[2], vNew(1, &vPars[2], rng), rng)
}
