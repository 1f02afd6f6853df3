//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction
//vp:prop P06
package PKG

// minimal positive DER integer of a 32-byte big-endian number (used by the generators)
func vspec_derint(b []byte) []byte {
	i := 0
	for i < 31 && b[i] == 0 {
		i++
	}
	r := []byte{}
	if b[i]&0x80 != 0 {
		r = append(r, 2, byte(33-i), 0)
	} else {
		r = append(r, 2, byte(32-i))
	}
	return append(r, b[i:]...)
}

// e is the minimal positive DER encoding of the 32-byte number x
func vspec_isder(e, x []byte) {
	n := len(e)
	vassert(n >= 1 && n <= 33)
	if n == 33 {
		vassert(e[0] == 0 && x[0] >= 0x80)
		veqb(e[1:], x)
		return
	}
	vassert(e[0] < 0x80)
	vassert(n == 1 || e[0] != 0 || e[1] >= 0x80)
	veqb(e, x[32-n:])
	for j := 0; j < 32-n; j++ {
		vassert(x[j] == 0)
	}
}

//vp:opt budget=300 summ=encodeSignatureToScript,vspec_isder
func vlemma_der(sp SignaturePubkey, t byte) {
	vassume(len(sp.Signature) == 64)
	o := vcopy(sp.Signature)
	b := sp.encodeSignatureToScript(t)
	vassert(int(b[0])+1 == len(b) && b[1] == 0x30 && int(b[2])+3 == int(b[0]) && b[3] == 2)
	n := int(b[4])
	vspec_isder(b[5:5+n], o[:32])
	vassert(b[5+n] == 2)
	m := int(b[6+n])
	vspec_isder(b[7+n:7+n+m], o[32:])
	vassert(7+n+m+1 == len(b) && b[len(b)-1] == t)
	veqb(sp.Signature, o)
	vreach()
}

func vlemma_derpub(sp SignaturePubkey, t byte) {
	vassume(len(sp.Signature) == 64 && sp.Signature[0] != 0 && sp.Signature[32] != 0)
	b := sp.encodeToScript(t)
	e := sp.encodeSignatureToScript(t)
	e = append(e, byte(len(sp.Pubkey)))
	e = append(e, sp.Pubkey...)
	veqb(b, e)
	vreach()
}

// value of a DER integer read from b: at most 33 bytes, left-padded to 32
func vspec_pad32(b []byte) []byte {
	if len(b) == 33 {
		return b[1:]
	}
	return append(make([]byte, 32-len(b)), b...)
}

//vp:opt budget=300 summ=decodeSignatureFromScript
func vlemma_undersig(b []byte) {
	in := b
	b = vcopy(in)
	sig, t, err := decodeSignatureFromScript(in)
	if err != nil {
		vassert(sig == nil)
		return
	}
	vassert(len(sig) == 64)
	vassert(int(b[0])+1 == len(b) && b[1] == 0x30 && int(b[2])+3 == int(b[0]) && b[3] == 2)
	n := int(b[4])
	vassert(b[5+n] == 2)
	m := int(b[6+n])
	vassert(7+n+m+1 == len(b))
	vassert(n < 33 || b[5] == 0)
	vassert(m < 33 || b[7+n] == 0)
	veqb(sig[:32], vspec_pad32(b[5:5+n]))
	veqb(sig[32:], vspec_pad32(b[7+n:7+n+m]))
	vassert(t == b[len(b)-1])
	vreach()
}

//vp:opt budget=300 summ=decodeFromScriptBytes
func vlemma_undersigpub(b []byte) {
	in := b
	b = vcopy(in)
	sp, t, err := decodeFromScriptBytes(in)
	if err != nil {
		vassert(sp == nil)
		return
	}
	vassert(len(sp.Signature) == 64 && len(sp.Pubkey) == 33)
	vassert(b[1] == 0x30 && int(b[2])+3 == int(b[0]) && b[3] == 2)
	n := int(b[4])
	vassert(b[5+n] == 2)
	m := int(b[6+n])
	vassert(8+n+m+34 == len(b))
	vassert(n < 33 || b[5] == 0)
	vassert(m < 33 || b[7+n] == 0)
	veqb(sp.Signature[:32], vspec_pad32(b[5:5+n]))
	veqb(sp.Signature[32:], vspec_pad32(b[7+n:7+n+m]))
	vassert(t == b[7+n+m])
	veqb(sp.Pubkey, b[len(b)-33:])
	vreach()
}

func vgen_undersig(g *vrand) []byte {
	r, s := g.bytes(g.n(34)), g.bytes(g.n(34))
	if g.p(60) {
		r, s = vspec_derint(g.bytes(32))[2:], vspec_derint(g.bytes(32))[2:]
	}
	b := []byte{byte(len(r) + len(s) + 7), 0x30, byte(len(r) + len(s) + 4), 2, byte(len(r))}
	b = append(b, r...)
	b = append(b, 2, byte(len(s)))
	b = append(b, s...)
	b = append(b, byte(g.n(4)))
	if g.p(30) {
		return g.mutb(b)
	}
	return b
}

func vgen_undersigpub(g *vrand) []byte {
	b := append(vgen_undersig(g), 33)
	b = append(b, g.bytes(33)...)
	if g.p(20) {
		return g.mutb(b)
	}
	return b
}
