package mkem

import "github.com/henrydcase/nobs/verifrt"

func verifC01DecapsSidh434() {
	rng := verifrt.Reader("rng")
	vCheckDecaps(&vPars[0], vNew(0, &vPars[0], rng), rng)
}

func verifC01DecapsSidh503() {
	rng := verifrt.Reader("rng")
	vCheckDecaps(&vPars[1], vNew(0, &vPars[1], rng), rng)
}

func verifC01DecapsSidh751() {
	rng := verifrt.Reader("rng")
	vCheckDecaps(&vPars[2], vNew(0, &vPars[2], rng), rng)
}

func verifC01DecapsMkem434() {
	rng := verifrt.Reader("rng")
	vCheckDecaps(&vPars[0], vNew(1, &vPars[0], rng), rng)
}

func verifC01DecapsMkem503() {
	rng := verifrt.Reader("rng")
	vCheckDecaps(&vPars[1], vNew(1, &vPars[1], rng), rng)
}

func verifC01DecapsMkem751() {
	rng := verifrt.Reader("rng")
	vCheckDecaps(&vPars[2], vNew(1, &vPars[2], rng), rng)
}
