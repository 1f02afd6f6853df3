//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction ontologyTransaction
//vp:prop P05
package PKG

func vlemma_signlow(h, pri []byte) {
	s, err := calcSignaturePubkey(h, pri)
	if err == nil {
		vspec_low(s.Signature)
	}
}

func vgen_signlow(g *vrand) ([]byte, []byte) { return g.bytes(32), g.bytes(32) }
