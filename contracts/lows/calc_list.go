//vp:packages btcLikeTxDriver
//vp:prop P05
package PKG

func vlemma_signlow(h [][]byte, u []TxUnlock, i int) {
	s, err := calcSignaturePubkey(h, u)
	if err == nil && i >= 0 && i < len(s) {
		vspec_low(s[i].Signature)
	}
}

func vgen_signlow(g *vrand) ([][]byte, []TxUnlock, int) {
	n := g.n(3) + 1
	var h [][]byte
	var u []TxUnlock
	for i := 0; i < n; i++ {
		h = append(h, g.bytes(32))
		u = append(u, TxUnlock{PrivateKey: g.bytes(32)})
	}
	return h, u, g.n(n)
}
