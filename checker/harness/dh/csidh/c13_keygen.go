package csidh

import "github.com/henrydcase/nobs/verifrt"

func verifC13KeyAll()    { vKeygen(verifrt.GoodReader("rng"), vNone) }
func verifC13KeyEven()   { vKeygen(verifrt.GoodReader("rng"), vEven) }
func verifC13KeyOdd()    { vKeygen(verifrt.GoodReader("rng"), vOdd) }
func verifC13KeyMany()   { vKeygen(verifrt.GoodReader("rng"), vMany) }
func verifC13KeyBlock()  { vKeygen(verifrt.GoodReader("rng"), vBlock) }
func verifC13KeyEdges()  { vKeygen(verifrt.GoodReader("rng"), vEdges) }
func verifC13KeySecond() { vKeygen(verifrt.GoodReader("rng"), func(k int) bool { return k < 64 }) }
func verifC13KeyFirst()  { vKeygen(verifrt.GoodReader("rng"), func(k int) bool { return k == 0 }) }
func verifC13KeyLast()   { vKeygen(verifrt.GoodReader("rng"), func(k int) bool { return k == 73 }) }
func verifC13KeyLong() {
	vKeygen(verifrt.GoodReader("rng"), func(k int) bool { return k > 5 && k < 400 })
}
