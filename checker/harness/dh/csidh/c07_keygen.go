package csidh

import "github.com/henrydcase/nobs/verifrt"

func verifC07CsidhKeyAll()   { vKeygen(verifrt.Reader("rng"), vNone) }
func verifC07CsidhKeyEven()  { vKeygen(verifrt.Reader("rng"), vEven) }
func verifC07CsidhKeyMany()  { vKeygen(verifrt.Reader("rng"), vMany) }
func verifC07CsidhKeyBlock() { vKeygen(verifrt.Reader("rng"), vBlock) }
