//vp:packages waykichainTransaction
//vp:prop P06
package PKG

//vp:opt budget=300 summ=ToBytes,vspec_isder
func vlemma_der(sp SigPub) {
	vassume(len(sp.Signature) == 64)
	o := vcopy(sp.Signature)
	b := sp.ToBytes()
	vspec_isdersig(b, o, 0)
	veqb(sp.Signature, o)
	vreach()
}

func vgen_der(g *vrand) SigPub { return SigPub{PublicKey: g.bytes(33), Signature: g.bytes(64)} }
