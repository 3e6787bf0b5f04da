package sha3

import "github.com/henrydcase/nobs/verifrt"

func vXofs() []vAlg { return vAlgs()[4:] }

// vDrive performs one step of kind k on h and returns the output it reads.
func vDrive(h ShakeHash, k, rate int, name string) []byte {
	switch k {
	case 1:
		h.Write(verifrt.Bytes(name, 9))
	case 2:
		h.Write(verifrt.Bytes(name, rate+9))
	case 3:
		out := make([]byte, 13)
		h.Read(out)
		return out
	case 4:
		out := make([]byte, rate+13)
		h.Read(out)
		return out
	case 5:
		h.Reset()
	case 6:
		c := h.Clone()
		c.Write(verifrt.Bytes(name+".c", 3))
		c.Reset()
	case 7: // a whole block
		h.Write(verifrt.Bytes(name, rate))
	case 8:
		out := make([]byte, rate)
		h.Read(out)
		return out
	case 9: // the rest of a block started by step 1
		h.Write(verifrt.Bytes(name, rate-9))
	}
	return nil
}

const vSteps = 10

func vFinish(h ShakeHash, name string) []byte {
	h.Write(verifrt.Bytes(name, 21))
	out := make([]byte, 190)
	h.Read(out)
	return out
}

// the clone and the original behave like two objects driven separately
func vCloneIndependent(al vAlg) {
	for s1 := 0; s1 < vSteps; s1++ {
		for s2 := 0; s2 < vSteps; s2++ {
			for s3 := 0; s3 < vSteps; s3++ {
				h := al.mk().(ShakeHash)
				vDrive(h, s1, al.rate, "s1")
				c := h.Clone()
				ha := vDrive(h, s2, al.rate, "s2")
				cb := vDrive(c, s3, al.rate, "s3")
				hz := vFinish(h, "hz")
				cz := vFinish(c, "cz")
				g := al.mk().(ShakeHash)
				vDrive(g, s1, al.rate, "s1")
				ga := vDrive(g, s2, al.rate, "s2")
				gz := vFinish(g, "hz")
				d := al.mk().(ShakeHash)
				vDrive(d, s1, al.rate, "s1")
				db := vDrive(d, s3, al.rate, "s3")
				dz := vFinish(d, "cz")
				verifrt.Assert("original not affected by its clone", verifrt.And(verifrt.EqBytes(ha, ga), verifrt.EqBytes(hz, gz)))
				verifrt.Assert("clone not affected by its original", verifrt.And(verifrt.EqBytes(cb, db), verifrt.EqBytes(cz, dz)))
			}
		}
	}
}

func verifC16CloneShake128()  { vCloneIndependent(vXofs()[0]) }
func verifC16CloneShake256()  { vCloneIndependent(vXofs()[1]) }
func verifC16CloneCShake128() { vCloneIndependent(vXofs()[2]) }
func verifC16CloneCShake256() { vCloneIndependent(vXofs()[3]) }

// Reset after any two steps, on the object, a clone, and a clone of a clone, equals a fresh object.
func verifC16Reset() {
	for _, al := range vXofs() {
		for s1 := 0; s1 < vSteps; s1++ {
			for s2 := 0; s2 < vSteps; s2++ {
				for which := 0; which < 3; which++ {
					h := al.mk().(ShakeHash)
					vDrive(h, s1, al.rate, "s1")
					if which > 0 {
						h = h.Clone()
					}
					vDrive(h, s2, al.rate, "s2")
					if which > 1 {
						h = h.Clone()
					}
					h.Reset()
					m := verifrt.Bytes("m", al.rate+5)
					h.Write(m)
					out := make([]byte, 40)
					h.Read(out)
					verifrt.Assert("as constructed", verifrt.EqBytes(out, vSponge(40, al.rate, al.sfx, vCat(vPrefix(al), m))))
				}
			}
		}
	}
}

// customization with unknown content
func verifC16ResetCustom() {
	N := verifrt.Bytes("N", 11)
	S := verifrt.Bytes("S", 200)
	h := NewCShake128(N, S)
	out1, out2, out3 := make([]byte, 40), make([]byte, 40), make([]byte, 40)
	c := h.Clone()
	h.Read(out1)
	verifrt.Fill("overwritten", N)
	verifrt.Fill("overwritten", S)
	h.Reset()
	h.Read(out2)
	c.Write(S)
	c.Reset()
	h.Reset()
	c.Read(out3)
	verifrt.Assert("Reset restores the customization", verifrt.EqBytes(out1, out2))
	verifrt.Assert("Reset of a clone restores the customization", verifrt.EqBytes(out1, out3))
}
