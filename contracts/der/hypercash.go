//vp:packages hypercashTransaction
//vp:prop P06
package PKG

//vp:opt budget=300 summ=encodeSignatureToScript,vspec_isder
func vlemma_der(sp SigPub, t byte) {
	vassume(len(sp.Signature) == 64)
	o := vcopy(sp.Signature)
	b := sp.encodeSignatureToScript(t)
	vspec_isdersig(b, o, 1)
	vassert(b[len(b)-1] == t)
	veqb(sp.Signature, o)
	vreach()
}

// the whole script: one length byte, the pushed signature, the pushed key
//vp:opt opaque=encodeSignatureToScript
func vlemma_script(sp SigPub, t byte) {
	vassume(len(sp.Signature) == 64)
	e := sp.encodeSignatureToScript(t)
	e = append(e, byte(len(sp.PublicKey)))
	e = append(e, sp.PublicKey...)
	veqb(sp.encodeToScript(t), append([]byte{byte(len(e))}, e...))
	vreach()
}

func vgen_der(g *vrand) (SigPub, byte) { return SigPub{Signature: g.bytes(64), PublicKey: g.bytes(33)}, 1 }
func vgen_script(g *vrand) (SigPub, byte) { return vgen_der(g) }
