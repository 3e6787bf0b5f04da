package csidh

import "github.com/henrydcase/nobs/verifrt"

// Both parties generate public keys, exchange them as bytes and derive a secret.
func vBothWays(f, g func(i int) int) {
	verifrt.Mode("csidh.field")
	verifrt.Mode("csidh.order")
	a, b := vExps(f), vExps(g)
	var zero fp
	verifrt.CurveBase(&zero)
	rng := verifrt.GoodReader("rng")
	pa, pb := new(PublicKey), new(PublicKey)
	GeneratePublicKey(pa, a, rng)
	GeneratePublicKey(pb, b, rng)
	var buf [64]byte
	ra, rb := new(PublicKey), new(PublicKey)
	verifrt.Havoc("ra", ra)
	verifrt.Havoc("rb", rb)
	verifrt.Assert("A's public key is exported and imported", pa.Export(buf[:]) && ra.Import(buf[:]))
	verifrt.Assert("B's public key is exported and imported", pb.Export(buf[:]) && rb.Import(buf[:]))
	var sa, sb [64]byte
	if !DeriveSecret(&sa, rb, a, rng) || !DeriveSecret(&sb, ra, b, rng) {
		return
	}
	ca, cb := new(PublicKey), new(PublicKey)
	ca.Import(sa[:])
	cb.Import(sb[:])
	for i := 0; i < 74; i++ {
		n := verifrt.CurveNet(&ca.a, i)
		verifrt.Assert("both parties reach the same curve", verifrt.And(n == f(i)+g(i), verifrt.CurveNet(&cb.a, i) == n))
	}
	verifrt.Cover("secret derived")
}

func verifC28CsidhMixed() {
	vBothWays(func(i int) int { return i%11 - 5 }, func(i int) int { return (3*i+2)%11 - 5 })
}
func verifC28CsidhOpposite() {
	vBothWays(func(i int) int { return i%7 - 3 }, func(i int) int { return 3 - i%7 })
}
