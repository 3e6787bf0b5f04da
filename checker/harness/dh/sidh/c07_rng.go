package sidh

import "github.com/henrydcase/nobs/verifrt"

func vRngGenerate(p *vPar, v KeyVariant, way int) {
	rng := verifrt.Reader("rng")
	prv := vNewPrv(p, v, way)
	vOldPrv(prv)
	var err error
	if way == 0 {
		err = prv.Generate(rng)
	} else {
		err = GeneratePrivateKey(prv, rng)
	}
	verifrt.Assert("error exactly when the random source failed", (err != nil) == rng.Failed())
	if err != nil {
		verifrt.Cover("failed")
		return
	}
	all := append(append([]byte{}, prv.S...), prv.Scalar...)
	verifrt.Assert("S and all lower scalar bits are distinct fresh random bits", verifrt.FreshBits(all, 8*len(prv.S)+p.bits[vGroup(v)]-1))
	verifrt.Cover("generated")
}

func verifC07Gen434AWay0()    { vRngGenerate(&vPars[0], vVariants[0], 0) }
func verifC07Gen434AWay1()    { vRngGenerate(&vPars[0], vVariants[0], 1) }
func verifC07Gen434BWay0()    { vRngGenerate(&vPars[0], vVariants[1], 0) }
func verifC07Gen434BWay1()    { vRngGenerate(&vPars[0], vVariants[1], 1) }
func verifC07Gen434SikeWay0() { vRngGenerate(&vPars[0], vVariants[2], 0) }
func verifC07Gen434SikeWay1() { vRngGenerate(&vPars[0], vVariants[2], 1) }
func verifC07Gen503AWay0()    { vRngGenerate(&vPars[1], vVariants[0], 0) }
func verifC07Gen503AWay1()    { vRngGenerate(&vPars[1], vVariants[0], 1) }
func verifC07Gen503BWay0()    { vRngGenerate(&vPars[1], vVariants[1], 0) }
func verifC07Gen503BWay1()    { vRngGenerate(&vPars[1], vVariants[1], 1) }
func verifC07Gen503SikeWay0() { vRngGenerate(&vPars[1], vVariants[2], 0) }
func verifC07Gen503SikeWay1() { vRngGenerate(&vPars[1], vVariants[2], 1) }
func verifC07Gen751AWay0()    { vRngGenerate(&vPars[2], vVariants[0], 0) }
func verifC07Gen751AWay1()    { vRngGenerate(&vPars[2], vVariants[0], 1) }
func verifC07Gen751BWay0()    { vRngGenerate(&vPars[2], vVariants[1], 0) }
func verifC07Gen751BWay1()    { vRngGenerate(&vPars[2], vVariants[1], 1) }
func verifC07Gen751SikeWay0() { vRngGenerate(&vPars[2], vVariants[2], 0) }
func verifC07Gen751SikeWay1() { vRngGenerate(&vPars[2], vVariants[2], 1) }
