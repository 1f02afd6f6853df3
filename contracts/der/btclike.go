//vp:packages btcLikeTxDriver
//vp:prop P06
package PKG

// the pushed signature with its hash type, then the pushed key
//vp:opt budget=300 summ=encodeToScript,vspec_isder
func vlemma_der(sp SignaturePubkey, t byte) {
	vassume(len(sp.Signature) == 64 && len(sp.Pubkey) == 33)
	o, p := vcopy(sp.Signature), vcopy(sp.Pubkey)
	b := sp.encodeToScript(t)
	n := int(b[0])
	vassert(n+35 == len(b))
	vspec_isdersig(b[:n+1], o, 1)
	vassert(b[n] == t && b[n+1] == 33)
	veqb(b[n+2:], p)
	veqb(sp.Signature, o)
	vreach()
}

// the same in a witness
//vp:opt budget=300 summ=encodeToScript,vspec_isder
func vlemma_derwitness(sp TxWitness, t byte) {
	vassume(len(sp.Signature) == 64 && len(sp.Pubkey) == 33)
	o, p := vcopy(sp.Signature), vcopy(sp.Pubkey)
	b := sp.encodeToScript(t)
	n := int(b[0])
	vassert(n+35 == len(b))
	vspec_isdersig(b[:n+1], o, 1)
	vassert(b[n] == t && b[n+1] == 33)
	veqb(b[n+2:], p)
	veqb(sp.Signature, o)
	vreach()
}

func vgen_der(g *vrand) (SignaturePubkey, byte) { return SignaturePubkey{Pubkey: g.bytes(33), Signature: g.bytes(64)}, 1 }
func vgen_derwitness(g *vrand) (TxWitness, byte) { return TxWitness{Pubkey: g.bytes(33), Signature: g.bytes(64)}, 1 }

// value of a DER integer: at most 33 bytes, left-padded to 32
func vspec_pad32(b []byte) []byte {
	if len(b) == 33 {
		return b[1:]
	}
	return append(make([]byte, 32-len(b)), b...)
}

// reading a script fails with an error or returns exactly the integers and the key found in it
//vp:opt budget=300 summ=decodeFromScriptBytes
func vlemma_undersigpub(in []byte) {
	b := vcopy(in)
	sp, err := decodeFromScriptBytes(in)
	if err != nil {
		vassert(sp == nil)
		return
	}
	vassert(len(sp.Signature) == 64 && len(sp.Pubkey) == 33)
	vassert(b[1] == 0x30 && int(b[2])+3 == int(b[0]) && b[3] == 2)
	n := int(b[4])
	vassert(b[5+n] == 2)
	m := int(b[6+n])
	vassert(8+n+m+34 == len(b))
	vassert(n < 33 || b[5] == 0)
	vassert(m < 33 || b[7+n] == 0)
	veqb(sp.Signature[:32], vspec_pad32(b[5:5+n]))
	veqb(sp.Signature[32:], vspec_pad32(b[7+n:7+n+m]))
	vassert(b[7+n+m] == 1)
	veqb(sp.Pubkey, b[len(b)-33:])
	vreach()
}

// a witness is read the same way
//vp:opt opaque=decodeFromScriptBytes
func vlemma_undersegwit(in []byte) {
	w, err := decodeFromSegwitBytes(in)
	sp, e := decodeFromScriptBytes(in)
	vassert((err == nil) == (e == nil) && (w == nil) == (err != nil))
	if err == nil {
		veqb(w.Signature, sp.Signature)
		veqb(w.Pubkey, sp.Pubkey)
		vreach()
	}
}

func vgen_undersigpub(g *vrand) []byte {
	b := SignaturePubkey{Pubkey: g.bytes(33), Signature: g.bytes(64)}.encodeToScript(1)
	if g.p(40) {
		return g.mutb(b)
	}
	return b
}

func vgen_undersegwit(g *vrand) []byte { return vgen_undersigpub(g) }
