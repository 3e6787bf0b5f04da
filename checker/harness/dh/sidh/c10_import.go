package sidh

import (
	"github.com/henrydcase/nobs/dh/sidh/common"
	"github.com/henrydcase/nobs/dh/sidh/internal/p434"
	"github.com/henrydcase/nobs/dh/sidh/internal/p503"
	"github.com/henrydcase/nobs/dh/sidh/internal/p751"
	"github.com/henrydcase/nobs/verifrt"
)

func vPrvSize(p *vPar, v KeyVariant) int { return vS(p, v) + p.bytes[vGroup(v)] }

// private keys: every length around the right one, whatever the key held
func vPrvImport(p *vPar, v KeyVariant, way int) {
	prv := vNewPrv(p, v, way)
	vOldPrv(prv)
	n := vPrvSize(p, v)
	verifrt.Assert("private key size", prv.Size() == n)
	in := verifrt.BytesRange("in", 0, n+9)
	snapIn := verifrt.Snapshot(in)
	snap := verifrt.Snapshot(prv)
	err := prv.Import(in)
	verifrt.Assert("input unchanged", verifrt.Unchanged(snapIn, in))
	verifrt.Assert("exactly the right size is accepted", (err == nil) == (len(in) == n))
	if err != nil {
		verifrt.Assert("refused import changes nothing", verifrt.Unchanged(snap, prv))
		return
	}
	for i := 0; i < vS(p, v); i++ {
		verifrt.Assert("S", prv.S[i] == in[i])
	}
	for i := 0; i < len(prv.Scalar); i++ {
		verifrt.Assert("scalar", prv.Scalar[i] == in[vS(p, v)+i])
	}
	out := verifrt.Bytes("out", n+5)
	tail := verifrt.Snapshot(out[n:])
	snap = verifrt.Snapshot(prv)
	prv.Export(out)
	verifrt.Assert("Export does not change the key", verifrt.Unchanged(snap, prv))
	verifrt.Assert("Export after Import", verifrt.EqBytes(out[:n], in))
	verifrt.Assert("Export writes Size bytes", verifrt.Unchanged(tail, out[n:]))
	in[0] ^= 1
	in[n-1] ^= 1
	out[1] ^= 1
	verifrt.Assert("key does not alias the buffers", verifrt.Unchanged(snap, prv))
}

// vLE is the little-endian value of b as 64-bit words.
func vLE(b []byte) (w [12]uint64) {
	for i, x := range b {
		w[i/8] |= uint64(x) << (8 * uint(i%8))
	}
	return
}

func vPubImport(p *vPar, v KeyVariant) {
	pub := vNewPub(p, v)
	verifrt.Havoc("old", &pub.affine3Pt)
	verifrt.Assert("public key size", pub.Size() == p.pk)
	in := verifrt.Bytes("in", p.pk)
	snapIn := verifrt.Snapshot(in)
	params, kind := pub.Params, pub.KeyVariant
	err := pub.Import(in)
	verifrt.Assert("parameters and variant kept", pub.Params == params && pub.KeyVariant == kind)
	verifrt.Assert("right size accepted", err == nil)
	verifrt.Assert("input unchanged", verifrt.Unchanged(snapIn, in))
	fresh := vNewPub(p, v)
	fresh.Import(in)
	verifrt.Assert("import replaces the whole key", verifrt.Same(pub.affine3Pt, fresh.affine3Pt))
	// each coefficient is converted from its own bytes
	for i := 0; i < 3; i++ {
		for j := 0; j < 2; j++ {
			c := &pub.affine3Pt[i].A
			if j == 1 {
				c = &pub.affine3Pt[i].B
			}
			o := (2*i + j) * p.fe
			want := vMont(p, vLE(in[o:o+p.fe]))
			for k := 0; k < p.words; k++ {
				verifrt.Assert("coefficient is the Montgomery form of its own bytes", c[k] == want[k])
			}
		}
	}
	out := verifrt.Bytes("out", p.pk+5)
	tail := verifrt.Snapshot(out[p.pk:])
	snap := verifrt.Snapshot(pub)
	pub.Export(out)
	verifrt.Assert("Export does not change the key", verifrt.Unchanged(snap, pub))
	verifrt.Assert("Export writes Size bytes", verifrt.Unchanged(tail, out[p.pk:]))
	for i := 0; i < 3; i++ {
		for j := 0; j < 2; j++ {
			c := &pub.affine3Pt[i].A
			if j == 1 {
				c = &pub.affine3Pt[i].B
			}
			f := vFromMont(p, *c)
			o := (2*i + j) * p.fe
			for k := 0; k < p.fe; k++ {
				verifrt.Assert("exported byte", out[o+k] == byte(f[k/8]>>(8*uint(k%8))))
			}
		}
	}
}

func vPubRefuse(p *vPar, v KeyVariant, lo, hi int) {
	pub := vNewPub(p, v)
	verifrt.Havoc("old", &pub.affine3Pt)
	in := verifrt.BytesRange("in", lo, hi)
	snap := verifrt.Snapshot(pub)
	err := pub.Import(in)
	verifrt.Assert("wrong size is refused", err != nil)
	verifrt.Assert("refused import changes nothing", verifrt.Unchanged(snap, pub))
}

func vMont(p *vPar, w [12]uint64) [12]uint64 {
	in := common.Fp2{A: w}
	var out common.Fp2
	switch p.id {
	case Fp434:
		p434.ToMontgomery(&out, &in)
	case Fp503:
		p503.ToMontgomery(&out, &in)
	case Fp751:
		p751.ToMontgomery(&out, &in)
	}
	return out.A
}

func vFromMont(p *vPar, w [12]uint64) [12]uint64 {
	in := common.Fp2{A: w}
	var out common.Fp2
	switch p.id {
	case Fp434:
		p434.FromMontgomery(&out, &in)
	case Fp503:
		p503.FromMontgomery(&out, &in)
	case Fp751:
		p751.FromMontgomery(&out, &in)
	}
	return out.A
}

func verifC10Prv434AWay0()    { vPrvImport(&vPars[0], vVariants[0], 0) }
func verifC10Prv434AWay1()    { vPrvImport(&vPars[0], vVariants[0], 1) }
func verifC10Pub434A()        { vPubImport(&vPars[0], vVariants[0]) }
func verifC10Prv434BWay0()    { vPrvImport(&vPars[0], vVariants[1], 0) }
func verifC10Prv434BWay1()    { vPrvImport(&vPars[0], vVariants[1], 1) }
func verifC10Pub434B()        { vPubImport(&vPars[0], vVariants[1]) }
func verifC10Prv434SikeWay0() { vPrvImport(&vPars[0], vVariants[2], 0) }
func verifC10Prv434SikeWay1() { vPrvImport(&vPars[0], vVariants[2], 1) }
func verifC10Pub434Sike()     { vPubImport(&vPars[0], vVariants[2]) }
func verifC10PubShort434()    { vPubRefuse(&vPars[0], vVariants[0], 0, vPars[0].pk-1) }
func verifC10PubLong434()     { vPubRefuse(&vPars[0], vVariants[2], vPars[0].pk+1, vPars[0].pk+70) }
func verifC10Prv503AWay0()    { vPrvImport(&vPars[1], vVariants[0], 0) }
func verifC10Prv503AWay1()    { vPrvImport(&vPars[1], vVariants[0], 1) }
func verifC10Pub503A()        { vPubImport(&vPars[1], vVariants[0]) }
func verifC10Prv503BWay0()    { vPrvImport(&vPars[1], vVariants[1], 0) }
func verifC10Prv503BWay1()    { vPrvImport(&vPars[1], vVariants[1], 1) }
func verifC10Pub503B()        { vPubImport(&vPars[1], vVariants[1]) }
func verifC10Prv503SikeWay0() { vPrvImport(&vPars[1], vVariants[2], 0) }
func verifC10Prv503SikeWay1() { vPrvImport(&vPars[1], vVariants[2], 1) }
func verifC10Pub503Sike()     { vPubImport(&vPars[1], vVariants[2]) }
func verifC10PubShort503()    { vPubRefuse(&vPars[1], vVariants[0], 0, vPars[1].pk-1) }
func verifC10PubLong503()     { vPubRefuse(&vPars[1], vVariants[2], vPars[1].pk+1, vPars[1].pk+70) }
func verifC10Prv751AWay0()    { vPrvImport(&vPars[2], vVariants[0], 0) }
func verifC10Prv751AWay1()    { vPrvImport(&vPars[2], vVariants[0], 1) }
func verifC10Pub751A()        { vPubImport(&vPars[2], vVariants[0]) }
func verifC10Prv751BWay0()    { vPrvImport(&vPars[2], vVariants[1], 0) }
func verifC10Prv751BWay1()    { vPrvImport(&vPars[2], vVariants[1], 1) }
func verifC10Pub751B()        { vPubImport(&vPars[2], vVariants[1]) }
func verifC10Prv751SikeWay0() { vPrvImport(&vPars[2], vVariants[2], 0) }
func verifC10Prv751SikeWay1() { vPrvImport(&vPars[2], vVariants[2], 1) }
func verifC10Pub751Sike()     { vPubImport(&vPars[2], vVariants[2]) }
func verifC10PubShort751()    { vPubRefuse(&vPars[2], vVariants[0], 0, vPars[2].pk-1) }
func verifC10PubLong751()     { vPubRefuse(&vPars[2], vVariants[2], vPars[2].pk+1, vPars[2].pk+70) }
