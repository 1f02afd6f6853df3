//vp:packages aliencoinTransaction vergeTransaction hypercashTransaction
//vp:prop P05
package PKG

func vlemma_signlow(h string, pri []byte) {
	vassume(len(pri) == 32)
	s, err := SignTransaction(h, pri)
	if err == nil {
		vspec_low(s)
	}
}

func vgen_signlow(g *vrand) (string, []byte) { return vhexs(g.bytes(32)), g.bytes(32) }
