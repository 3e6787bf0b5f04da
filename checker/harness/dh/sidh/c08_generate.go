package sidh

import "github.com/henrydcase/nobs/verifrt"

func vGenerate(p *vPar, v KeyVariant, way int) {
	rng := verifrt.Reader("rng")
	prv := vNewPrv(p, v, way)
	vOldPrv(prv)
	n := p.bits[vGroup(v)]
	var err error
	if way == 0 {
		err = prv.Generate(rng)
	} else {
		err = GeneratePrivateKey(prv, rng)
	}
	verifrt.Assert("an exhausted random source is an error", err != nil || !rng.Failed())
	verifrt.Assert("a working random source is no error", err == nil || rng.Failed())
	if err != nil {
		return
	}
	verifrt.Assert("scalar size", len(prv.Scalar) == p.bytes[vGroup(v)])
	verifrt.Assert("size of S", len(prv.S) == vS(p, v))
	verifrt.Assert("top bit of the scalar set", prv.Scalar[(n-1)/8]>>uint((n-1)%8) == 1)
	for i := (n-1)/8 + 1; i < len(prv.Scalar); i++ {
		verifrt.Assert("nothing above the top bit", prv.Scalar[i] == 0)
	}
	all := append(append([]byte{}, prv.S...), prv.Scalar...)
	verifrt.Assert("S and all lower scalar bits are distinct fresh random bits", verifrt.FreshBits(all, 8*len(prv.S)+n-1))
}

func verifC08Gen434AWay0()    { vGenerate(&vPars[0], vVariants[0], 0) }
func verifC08Gen434AWay1()    { vGenerate(&vPars[0], vVariants[0], 1) }
func verifC08Gen434BWay0()    { vGenerate(&vPars[0], vVariants[1], 0) }
func verifC08Gen434BWay1()    { vGenerate(&vPars[0], vVariants[1], 1) }
func verifC08Gen434SikeWay0() { vGenerate(&vPars[0], vVariants[2], 0) }
func verifC08Gen434SikeWay1() { vGenerate(&vPars[0], vVariants[2], 1) }
func verifC08Gen503AWay0()    { vGenerate(&vPars[1], vVariants[0], 0) }
func verifC08Gen503AWay1()    { vGenerate(&vPars[1], vVariants[0], 1) }
func verifC08Gen503BWay0()    { vGenerate(&vPars[1], vVariants[1], 0) }
func verifC08Gen503BWay1()    { vGenerate(&vPars[1], vVariants[1], 1) }
func verifC08Gen503SikeWay0() { vGenerate(&vPars[1], vVariants[2], 0) }
func verifC08Gen503SikeWay1() { vGenerate(&vPars[1], vVariants[2], 1) }
func verifC08Gen751AWay0()    { vGenerate(&vPars[2], vVariants[0], 0) }
func verifC08Gen751AWay1()    { vGenerate(&vPars[2], vVariants[0], 1) }
func verifC08Gen751BWay0()    { vGenerate(&vPars[2], vVariants[1], 0) }
func verifC08Gen751BWay1()    { vGenerate(&vPars[2], vVariants[1], 1) }
func verifC08Gen751SikeWay0() { vGenerate(&vPars[2], vVariants[2], 0) }
func verifC08Gen751SikeWay1() { vGenerate(&vPars[2], vVariants[2], 1) }
