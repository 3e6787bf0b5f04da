//go:build amd64 && !noasm

package utils

import "github.com/henrydcase/nobs/verifrt"

func bit24(x uint32, n uint) bool { return (x>>n)&1 == 1 }

// Each flag is exactly the architectural bit of its CPUID leaf, and false when
// the processor does not have the leaf.
func verifC24Flags() {
	max, _, _, _ := cpuid(0, 0)
	_, _, c1, _ := cpuid(1, 0)
	_, b7, _, _ := cpuid(7, 0)
	if max < 7 {
		verifrt.Assert("BMI2 is not reported without leaf 7", !X86.HasBMI2)
		verifrt.Assert("ADX is not reported without leaf 7", !X86.HasADX)
		verifrt.Assert("RDSEED is not reported without leaf 7", !X86.HasRDSEED)
		verifrt.Assert("AES is not reported without leaf 1 ECX bit 25", !X86.HasAES || max >= 1 && bit24(c1, 25))
		return
	}
	verifrt.Assert("HasAES is leaf 1 ECX bit 25", X86.HasAES == bit24(c1, 25))
	verifrt.Assert("HasBMI2 is leaf 7 EBX bit 8", X86.HasBMI2 == bit24(b7, 8))
	verifrt.Assert("HasADX is leaf 7 EBX bit 19", X86.HasADX == bit24(b7, 19))
	verifrt.Assert("HasRDSEED is leaf 7 EBX bit 18", X86.HasRDSEED == bit24(b7, 18))
}
