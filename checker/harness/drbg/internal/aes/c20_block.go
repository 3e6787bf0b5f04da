package aes

import "github.com/henrydcase/nobs/verifrt"

func vImpls() []IAES { return []IAES{NewCipher(), &AESAsm{}} }

func vKeyed(c IAES, name string, n int) []byte {
	key := verifrt.Bytes(name, n)
	snap := verifrt.Snapshot(key)
	err := c.SetKey(key)
	verifrt.Assert("key accepted", err == nil)
	verifrt.Assert("key unchanged", verifrt.Unchanged(snap, key))
	return key
}

func vCrypt(c IAES, dec bool, dst, src []byte) {
	if dec {
		c.Decrypt(dst, src)
	} else {
		c.Encrypt(dst, src)
	}
}

func vWant(dec bool, key, src []byte) []byte {
	if dec {
		return verifrt.Fun("aes.dec", 16, key, src)
	}
	return verifrt.Fun("aes.enc", 16, key, src)
}

func vCheck(c IAES, key []byte, what string) {
	for _, dec := range []bool{false, true} {
		src := verifrt.Bytes("src", 16)
		dst := make([]byte, 16)
		vCrypt(c, dec, dst, src)
		verifrt.Assert(what, verifrt.EqBytes(dst, vWant(dec, key, src)))
	}
}

func verifC20KeySizes() {
	for _, c := range vImpls() {
		for n := 0; n <= 40; n++ {
			key := verifrt.Bytes("key", n)
			err := c.SetKey(key)
			good := n == 16 || n == 24 || n == 32
			verifrt.Assert("accepts exactly 16, 24 and 32 bytes", (err == nil) == good)
			if good {
				vCheck(c, key, "uses the key just set")
			}
		}
		for _, n := range []int{16, 24, 32} {
			key := vKeyed(c, "key2", n)
			for _, bad := range []int{0, 15, 17, 31, 33} {
				err := c.SetKey(verifrt.Bytes("bad", bad))
				verifrt.Assert("rejected", err != nil)
				k, ok := err.(KeySizeError)
				verifrt.Assert("KeySizeError with the length", verifrt.And(ok, int(k) == bad))
				vCheck(c, key, "keeps the previous key after a rejected one")
			}
		}
	}
}

func verifC20Rekey() {
	for _, c := range vImpls() {
		for _, n := range []int{16, 24, 32} {
			for _, m := range []int{16, 24, 32} {
				vKeyed(c, "first", n)
				vCheck(c, vKeyed(c, "second", m), "only the most recent key")
			}
		}
	}
}

func vBlocks(dec bool) {
	for _, c := range vImpls() {
		key := vKeyed(c, "key", 32)
		for _, ns := range []int{16, 17, 32, 40} {
			for _, nd := range []int{16, 17, 32, 40} {
				src, dst := verifrt.Bytes("src", ns), verifrt.Bytes("dst", nd)
				snap := verifrt.Snapshot(src)
				vCrypt(c, dec, dst, src)
				verifrt.Assert("result", verifrt.EqBytes(dst[:16], vWant(dec, key, src[:16])))
				verifrt.Assert("exactly one block written", verifrt.EqBytes(dst[16:], verifrt.Bytes("dst", nd)[16:]))
				verifrt.Assert("source unchanged", verifrt.Unchanged(snap, src))
			}
		}
	}
}

func verifC20BlocksEnc() { vBlocks(false) }
func verifC20BlocksDec() { vBlocks(true) }

func vShort(dec bool) {
	for _, c := range vImpls() {
		vKeyed(c, "key", 16)
		for n := 0; n < 16; n++ {
			for _, m := range []int{0, 8, 15, 16, 20} {
				short, other := verifrt.BytesCap("short", n, 20), verifrt.Bytes("other", m)
				all := short[:n+20]
				old := append([]byte(nil), all...)
				snapO := verifrt.Snapshot(other)
				verifrt.Assert("short source refused", verifrt.Panics(func() { vCrypt(c, dec, other, short) }))
				verifrt.Assert("short destination refused", verifrt.Panics(func() { vCrypt(c, dec, short, other) }))
				verifrt.Assert("nothing written", verifrt.And(verifrt.EqBytes(all, old), verifrt.Unchanged(snapO, other)))
			}
		}
	}
}

func verifC20ShortEnc() { vShort(false) }
func verifC20ShortDec() { vShort(true) }

func vOverlap(dec bool) {
	for _, c := range vImpls() {
		key := vKeyed(c, "key", 24)
		for i := 0; i <= 32; i++ {
			for _, j := range []int{0, 1, 15, 16, 17, 32} {
				buf := verifrt.Bytes("buf", 64)
				snap := verifrt.Snapshot(buf)
				want := vWant(dec, key, buf[j:j+16])
				inexact := i != j && i-j < 16 && j-i < 16
				p := verifrt.Panics(func() { vCrypt(c, dec, buf[i:], buf[j:]) })
				verifrt.Assert("inexact overlap refused, anything else accepted", p == inexact)
				if p {
					verifrt.Assert("nothing written", verifrt.Unchanged(snap, buf))
				} else {
					verifrt.Assert("result", verifrt.EqBytes(buf[i:i+16], want))
				}
			}
		}
	}
}

func verifC20OverlapEnc() { vOverlap(false) }
func verifC20OverlapDec() { vOverlap(true) }
