package csidh

import "github.com/henrydcase/nobs/verifrt"

// vKeygen analyses key generation when the random bytes that lie outside
// [-5, 5] are exactly those for which reject holds.
func vKeygen(rng *verifrt.Rng, reject func(k int) bool) {
	prv := new(PrivateKey)
	verifrt.Havoc("old", prv)
	var want [74]byte
	k := 0
	for n := 0; n < 74; k++ {
		b := verifrt.Byte("rng", k)
		ok := b <= 5 || b >= 251
		if reject(k) {
			verifrt.Assume(!ok)
			continue
		}
		verifrt.Assume(ok)
		want[n] = b
		n++
	}
	var err error
	verifrt.Assert("no panic", !verifrt.Panics(func() { err = GeneratePrivateKey(prv, rng) }))
	verifrt.Assert("an exhausted random source is an error", err != nil || !rng.Failed())
	verifrt.Assert("a working random source is no error", err == nil || rng.Failed())
	if err != nil {
		verifrt.Cover("failed")
		return
	}
	verifrt.Assert("random bytes drawn in blocks of 64", rng.Drawn() == (k+63)/64*64)
	for i := range want {
		verifrt.Assert("exponent is the next accepted byte", byte(prv.e[i/2])>>uint(4*(i%2))&15 == want[i]&15)
	}
	verifrt.Cover("generated")
}

func vNone(k int) bool { return false }

func vEven(k int) bool { return k%2 == 0 }

func vOdd(k int) bool { return k%2 == 1 }

func vMany(k int) bool { return k%6 != 4 }

func vBlock(k int) bool { return k/64%2 == 0 }

func vEdges(k int) bool { return k%64 < 3 || k%64 > 60 }
