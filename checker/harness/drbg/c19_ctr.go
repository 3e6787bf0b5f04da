package drbg

import "github.com/henrydcase/nobs/verifrt"

// vState is the working state of SP 800-90A, 10.2.1.1.
type vState struct {
	key [32]byte
	v   [16]byte
}

func (s *vState) inc() {
	for i := 15; i >= 0; i-- {
		if s.v[i] == 0xff {
			s.v[i] = 0
		} else {
			s.v[i]++
			break
		}
	}
}

func (s *vState) block() []byte {
	s.inc()
	return verifrt.Fun("aes.enc", 16, s.key[:], s.v[:])
}

// update is CTR_DRBG_Update, 10.2.1.2.
func (s *vState) update(data []byte) {
	var t []byte
	for i := 0; i < 3; i++ {
		t = append(t, s.block()...)
	}
	for i := range t {
		t[i] ^= data[i]
	}
	copy(s.key[:], t[:32])
	copy(s.v[:], t[32:])
}

// seed material: entropy padded with zeros or cut to seedlen, xor the other input likewise
func vSeed(entropy, other []byte) []byte {
	s := make([]byte, 48)
	copy(s, entropy)
	for i := 0; i < len(other) && i < 48; i++ {
		s[i] ^= other[i]
	}
	return s
}

func vInstantiate(entropy, pers []byte) *vState {
	s := new(vState)
	s.update(vSeed(entropy, pers))
	return s
}

func (s *vState) reseed(entropy, add []byte) { s.update(vSeed(entropy, add)) }

func (s *vState) generate(n int, ad []byte) []byte {
	add := make([]byte, 48)
	if len(ad) > 0 {
		copy(add, ad)
		s.update(add)
	}
	out := make([]byte, 0, n+16)
	for len(out) < n {
		out = append(out, s.block()...)
	}
	s.update(add)
	return out[:n]
}

func vCheckRead(c *CtrDrbg, s *vState, n int, what string) {
	out := verifrt.Bytes("old", n+5)
	k, err := c.Read(out[:n])
	verifrt.Assert(what+": reports success", verifrt.And(k == n, err == nil))
	verifrt.Assert(what+": output", verifrt.EqBytes(out[:n], s.generate(n, nil)))
	verifrt.Assert(what+": nothing beyond", verifrt.EqBytes(out[n:], verifrt.Bytes("old", n+5)[n:]))
}

func vInitLens(lo, hi int) {
	for _, ne := range []int{32, 33, 47, 48, 49, 60} {
		for _, np := range []int{0, 1, 32, 47, 48, 49, 60} {
			if (ne+np)%2 != lo {
				continue
			}
			e, p := verifrt.Bytes("entropy", ne), verifrt.Bytes("pers", np)
			snapE, snapP := verifrt.Snapshot(e), verifrt.Snapshot(p)
			c := NewCtrDrbg()
			verifrt.Assert("Init succeeds", c.Init(e, p))
			s := vInstantiate(e, p)
			verifrt.Assert("entropy unchanged", verifrt.Unchanged(snapE, e))
			verifrt.Assert("personalization unchanged", verifrt.Unchanged(snapP, p))
			vCheckRead(c, s, 16, "after Init")
		}
	}
}

func verifC19InitEven() { vInitLens(0, 0) }
func verifC19InitOdd()  { vInitLens(1, 0) }

func vNew() (*CtrDrbg, *vState) {
	e, p := verifrt.Bytes("entropy", 48), verifrt.Bytes("pers", 20)
	c := NewCtrDrbg()
	c.Init(e, p)
	return c, vInstantiate(e, p)
}

func vReadLens(lens ...int) {
	for _, n := range lens {
		c, s := vNew()
		vCheckRead(c, s, n, "first read")
		vCheckRead(c, s, 17, "second read")
	}
}

func verifC19Read0() { vReadLens(0, 1, 15) }
func verifC19Read1() { vReadLens(16, 17, 31) }
func verifC19Read2() { vReadLens(32, 33, 48) }
func verifC19Read3() { vReadLens(47, 49, 64) }

func vReadAd(nads ...int) {
	for _, nad := range nads {
		for _, n := range []int{16, 23} {
			c, s := vNew()
			ad := verifrt.Bytes("ad", nad)
			snap := verifrt.Snapshot(ad)
			out := make([]byte, n)
			k, err := c.ReadWithAdditionalData(out, ad)
			verifrt.Assert("reports success", verifrt.And(k == n, err == nil))
			verifrt.Assert("output", verifrt.EqBytes(out, s.generate(n, ad)))
			verifrt.Assert("additional data unchanged", verifrt.Unchanged(snap, ad))
			vCheckRead(c, s, 16, "next read")
		}
	}
}

func verifC19Additional0() { vReadAd(0, 1, 47) }
func verifC19Additional1() { vReadAd(48, 49, 60) }

func vReseed(ne int) {
	for _, na := range []int{0, 5, 48, 49} {
		c, s := vNew()
		vCheckRead(c, s, 5, "before Reseed")
		e, a := verifrt.Bytes("entropy2", ne), verifrt.Bytes("add", na)
		snapE, snapA := verifrt.Snapshot(e), verifrt.Snapshot(a)
		c.Reseed(e, a)
		s.reseed(e, a)
		verifrt.Assert("entropy unchanged", verifrt.Unchanged(snapE, e))
		verifrt.Assert("additional input unchanged", verifrt.Unchanged(snapA, a))
		vCheckRead(c, s, 20, "after Reseed")
	}
}

func verifC19Reseed48() { vReseed(48) }
func verifC19Reseed32() { vReseed(32) }
func verifC19Reseed60() { vReseed(60) }

// Init again starts over whatever happened before
func verifC19ReInit() {
	c, s := vNew()
	vCheckRead(c, s, 20, "first life")
	c.Reseed(verifrt.Bytes("entropy2", 40), nil)
	e, p := verifrt.Bytes("entropy3", 48), verifrt.Bytes("pers3", 3)
	verifrt.Assert("Init succeeds", c.Init(e, p))
	vCheckRead(c, vInstantiate(e, p), 20, "second life")
}

func verifC19NotInstantiated() {
	c := NewCtrDrbg()
	for _, n := range []int{0, 1, 16, 40} {
		out := verifrt.Bytes("old", n)
		k, err := c.Read(out)
		verifrt.Assert("Read before Init fails", err != nil)
		verifrt.Assert("nothing delivered", k == 0)
		verifrt.Assert("nothing written", verifrt.EqBytes(out, verifrt.Bytes("old", n)))
		k, err = c.ReadWithAdditionalData(out, verifrt.Bytes("ad", 48))
		verifrt.Assert("ReadWithAdditionalData before Init fails", err != nil)
		verifrt.Assert("nothing delivered", k == 0)
		verifrt.Assert("nothing written", verifrt.EqBytes(out, verifrt.Bytes("old", n)))
	}
}

// SP 800-90A, table 3: 256-bit strength needs 256 bits of entropy
func verifC19MinEntropyFirst() {
	c := NewCtrDrbg()
	verifrt.Assert("first Init refuses less entropy than its strength", !c.Init(verifrt.Bytes("entropy", 31), nil))
}

func verifC19MinEntropyAgain() {
	for _, n := range []int{0, 1, 31} {
		c, s := vNew()
		vCheckRead(c, s, 16, "first life")
		verifrt.Assert("Init refuses less entropy than its strength", !c.Init(verifrt.Bytes("short", n), nil))
		vCheckRead(c, s, 16, "after a refused Init")
	}
}

func verifC19ReadLong() { vReadLens(300, 16*257+3) }

// Any number of blocks in one call: after at most three iterations of any loop
// the output must have ended.
func verifC19Count() {
	verifrt.Mode("counts")
	q := verifrt.Int("count", 0, 1<<33)
	c, _ := vNew()
	verifrt.Cut(3)
	c.Read(verifrt.BytesLen("out", 16*q))
	verifrt.Cut(0)
	verifrt.Assert("no block is left out", q <= 4)
}
