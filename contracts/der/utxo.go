//vp:packages aliencoinTransaction vergeTransaction vollarTransaction
//vp:prop P06
package PKG

// one length byte, the pushed signature with hash type 1, the pushed 33-byte key
//vp:opt budget=300 summ=ToBytes,vspec_isder
func vlemma_der(sp SigPub) {
	vassume(len(sp.Signature) == 64 && len(sp.Pubkey) == 33)
	o, p := vcopy(sp.Signature), vcopy(sp.Pubkey)
	b := sp.ToBytes()
	n := int(b[1])
	vassert(int(b[0])+1 == len(b) && n+36 == len(b))
	vspec_isdersig(b[1:n+2], o, 1)
	vassert(b[n+1] == 1 && b[n+2] == 33)
	veqb(b[n+3:], p)
	veqb(sp.Signature, o)
	veqb(sp.Pubkey, p)
	vreach()
}

func vgen_der(g *vrand) SigPub { return SigPub{Pubkey: g.bytes(33), Signature: g.bytes(64)} }
