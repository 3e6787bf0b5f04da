package csidh

import "github.com/henrydcase/nobs/verifrt"

func verifC27Mul576() {
	verifrt.Mode("num")
	var r [9]uint64
	var x fp
	m := []uint64{0}
	vNum("x", &x, vAny)
	verifrt.NumIn("m", m, vAny)
	mul576(&r, &x, m[0])
	verifrt.NumCheck("exact product", r[:9], "x*m", vAny, vAny, 0)
}
