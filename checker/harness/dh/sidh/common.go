package sidh

import "github.com/henrydcase/nobs/verifrt"

// Published sizes of the parameter sets, independent of the code under analysis.
type vPar struct {
	id          uint8
	msg, pk, ss int
	bits        [2]int
	bytes       [2]int
	fe, words   int
}

var vPars = [3]vPar{
	{Fp434, 16, 330, 110, [2]int{216, 217}, [2]int{28, 28}, 55, 7},
	{Fp503, 24, 378, 126, [2]int{250, 252}, [2]int{32, 32}, 63, 8},
	{Fp751, 32, 564, 188, [2]int{372, 378}, [2]int{47, 48}, 94, 12},
}

var vVariants = [3]KeyVariant{KeyVariantSidhA, KeyVariantSidhB, KeyVariantSike}

func vGroup(v KeyVariant) int {
	if v == KeyVariantSidhA {
		return 0
	}
	return 1
}

func vS(p *vPar, v KeyVariant) int {
	if v == KeyVariantSike {
		return p.msg
	}
	return 0
}

// vNewPrv makes a private key by one of the two constructors.
func vNewPrv(p *vPar, v KeyVariant, way int) *PrivateKey {
	if way == 0 {
		return NewPrivateKey(p.id, v)
	}
	k := new(PrivateKey)
	k.Init(p.id, v)
	return k
}

func vNewPub(p *vPar, v KeyVariant) *PublicKey {
	return NewPublicKey(p.id, v)
}

func vOldPrv(k *PrivateKey) {
	verifrt.Fill("old.S", k.S)
	verifrt.Fill("old.Scalar", k.Scalar)
}

func vRandPrv(p *vPar, v KeyVariant, name string) *PrivateKey {
	k := NewPrivateKey(p.id, v)
	verifrt.Fill(name+".S", k.S)
	verifrt.Fill(name+".Scalar", k.Scalar)
	return k
}

func vRandPub(p *vPar, v KeyVariant, name string) *PublicKey {
	k := NewPublicKey(p.id, v)
	verifrt.Havoc(name, &k.affine3Pt)
	return k
}
