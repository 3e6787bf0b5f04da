//go:build !amd64 || noasm

package utils

import "github.com/henrydcase/nobs/verifrt"

// Without detection code no feature is reported.
func verifC24Flags() {
	verifrt.Assert("no feature is reported without detection", !X86.HasAES && !X86.HasBMI2 && !X86.HasADX && !X86.HasRDSEED)
}
