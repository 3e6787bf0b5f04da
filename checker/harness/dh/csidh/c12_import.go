package csidh

import "github.com/henrydcase/nobs/verifrt"

// private keys of any content, strings of any length around the right one
func verifC12PrivateImport() {
	prv := new(PrivateKey)
	verifrt.Havoc("old", prv)
	in := verifrt.BytesRange("in", 0, PrivateKeySize+9)
	snapIn, snap := verifrt.Snapshot(in), verifrt.Snapshot(prv)
	ok := prv.Import(in)
	verifrt.Assert("input unchanged", verifrt.Unchanged(snapIn, in))
	verifrt.Assert("exactly 37 bytes are accepted", ok == (len(in) == 37))
	if !ok {
		verifrt.Assert("refused import changes nothing", verifrt.Unchanged(snap, prv))
		return
	}
	vPrivateExport(prv, in)
}

func vPrivateExport(prv *PrivateKey, in []byte) {
	// what the key does next depends on the imported bytes only
	fresh := new(PrivateKey)
	fresh.Import(in)
	verifrt.Assert("import replaces the whole value", verifrt.Same(prv.e, fresh.e))
	snap := verifrt.Snapshot(prv)
	out := verifrt.Bytes("out", 37+6)
	tail := verifrt.Snapshot(out[37:])
	verifrt.Assert("export succeeds", prv.Export(out))
	verifrt.Assert("Export after Import", verifrt.EqBytes(out[:37], in))
	verifrt.Assert("bytes beyond the key unchanged", verifrt.Unchanged(tail, out[37:]))
	exact := verifrt.Bytes("exact", 37)
	verifrt.Assert("export succeeds", prv.Export(exact))
	verifrt.Assert("Export after Import", verifrt.EqBytes(exact, in))
	verifrt.Assert("Export does not change the key", verifrt.Unchanged(snap, prv))
	in[0] ^= 1
	in[36] ^= 1
	out[1] ^= 1
	verifrt.Assert("key does not alias the buffers", verifrt.Unchanged(snap, prv))
}

func verifC12PrivateNil() {
	prv := new(PrivateKey)
	verifrt.Havoc("old", prv)
	snap := verifrt.Snapshot(prv)
	verifrt.Assert("nil is refused", !prv.Import(nil))
	verifrt.Assert("refused import changes nothing", verifrt.Unchanged(snap, prv))
	verifrt.Assert("nil buffer is refused", !prv.Export(nil))
	long := verifrt.BytesRange("long", 38, 400)
	verifrt.Assert("long input is refused", !prv.Import(long))
	verifrt.Assert("refused import changes nothing", verifrt.Unchanged(snap, prv))
}

func verifC12PrivateShortBuffer() {
	prv := new(PrivateKey)
	verifrt.Havoc("old", prv)
	snap := verifrt.Snapshot(prv)
	out := verifrt.BytesRange("out", 0, 36)
	snapOut := verifrt.Snapshot(out)
	verifrt.Assert("short buffer is refused", !prv.Export(out))
	verifrt.Assert("short buffer untouched", verifrt.Unchanged(snapOut, out))
	verifrt.Assert("Export does not change the key", verifrt.Unchanged(snap, prv))
}

func verifC12PublicImport() {
	pub := new(PublicKey)
	verifrt.Havoc("old", pub)
	in := verifrt.BytesRange("in", 0, 64+9)
	snapIn, snap := verifrt.Snapshot(in), verifrt.Snapshot(pub)
	ok := pub.Import(in)
	verifrt.Assert("input unchanged", verifrt.Unchanged(snapIn, in))
	verifrt.Assert("exactly 64 bytes are accepted", ok == (len(in) == 64))
	if !ok {
		verifrt.Assert("refused import changes nothing", verifrt.Unchanged(snap, pub))
	}
}

func verifC12PublicLimbs() {
	pub := new(PublicKey)
	verifrt.Havoc("old", pub)
	in := verifrt.Bytes("in", 64)
	verifrt.Assert("64 bytes are accepted", pub.Import(in))
	for i := 0; i < 8; i++ {
		var w uint64
		for j := 7; j >= 0; j-- {
			w = w<<8 | uint64(in[8*i+j])
		}
		verifrt.Assert("limb is the little-endian value of its own bytes", pub.a[i] == w)
	}
	snap := verifrt.Snapshot(pub)
	out := verifrt.Bytes("out", 64)
	verifrt.Assert("export succeeds", pub.Export(out))
	verifrt.Assert("Export after Import", verifrt.EqBytes(out, in))
	verifrt.Assert("Export does not change the key", verifrt.Unchanged(snap, pub))
	in[0] ^= 1
	in[63] ^= 1
	out[1] ^= 1
	verifrt.Assert("key does not alias the buffers", verifrt.Unchanged(snap, pub))
}

// whatever the key holds, the exported bytes are its limbs and import back to it
func verifC12PublicExport() {
	pub, back := new(PublicKey), new(PublicKey)
	verifrt.Havoc("old", pub)
	verifrt.Havoc("other", back)
	out := verifrt.BytesRange("out", 0, 64+9)
	snapOut, snap := verifrt.Snapshot(out), verifrt.Snapshot(pub)
	ok := pub.Export(out)
	verifrt.Assert("exactly 64 bytes fit", ok == (len(out) == 64))
	verifrt.Assert("Export does not change the key", verifrt.Unchanged(snap, pub))
	if !ok {
		verifrt.Assert("refused buffer untouched", verifrt.Unchanged(snapOut, out))
		return
	}
	verifrt.Assert("own export imports", back.Import(out))
	verifrt.Assert("Import after Export", verifrt.Same(back.a, pub.a))
}

func verifC12Nil() {
	pub := new(PublicKey)
	verifrt.Havoc("old", pub)
	snap := verifrt.Snapshot(pub)
	verifrt.Assert("nil is refused", !pub.Import(nil))
	verifrt.Assert("nil buffer is refused", !pub.Export(nil))
	long := verifrt.BytesRange("long", 65, 400)
	verifrt.Assert("long input is refused", !pub.Import(long))
	verifrt.Assert("long buffer is refused", !pub.Export(long))
	verifrt.Assert("refused calls change nothing", verifrt.Unchanged(snap, pub))
}
