package mkem

import "github.com/henrydcase/nobs/verifrt"

func vMulti(p *vPar, n int, rng *verifrt.Rng) *MultiKEM {
	kem := new(MultiKEM)
	kem.Allocate(p.id, uint(n), rng)
	return kem
}

// vNames tells the recipients of a multi-recipient operation apart.
var vNames = func() (names [300]string) {
	d := [10]string{"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
	for i := range names {
		names[i] = "pub" + d[i/100] + d[i/10%10] + d[i%10]
	}
	return
}()
