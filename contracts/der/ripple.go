//vp:packages rippleTransaction
//vp:prop P06
package PKG

//vp:opt budget=300 summ=getSignatureBytes,vspec_isder
func vlemma_der(s []byte) {
	vassume(len(s) == 64)
	o := vcopy(s)
	b := getSignatureBytes(s)
	vspec_isdersig(b, o, 0)
	veqb(s, o)
	vreach()
}

func vgen_der(g *vrand) []byte { return g.bytes(64) }
