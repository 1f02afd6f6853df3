//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction
// generators for the multi-signature contracts (no part of any proof)
package PKG

func vmk_keys(g *vrand, n int) [][]byte {
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, g.bytes(33))
	}
	return r
}

func vgen_multidetails(g *vrand) ([]byte, int) {
	n := 1 + g.n(16)
	r := vspec_redeem(byte(1+g.n(n)), vmk_keys(g, n))
	if g.p(20) {
		r[g.n(len(r))] ^= byte(1 + g.n(255))
	}
	if g.p(20) {
		r = r[:g.n(len(r))]
	}
	return r, g.n(n)
}

func vgen_multidetotal(g *vrand) []byte {
	r, _ := vgen_multidetails(g)
	return r
}

func vgen_multiback1(g *vrand) (byte, []byte)         { return byte(g.n(4)), g.bytes(33) }
func vgen_multiback2(g *vrand) (byte, []byte, []byte) { return byte(g.n(4)), g.bytes(33), g.bytes(33) }
func vgen_multiback3(g *vrand) (byte, []byte, []byte, []byte) {
	return byte(g.n(5)), g.bytes(33), g.bytes(33), g.bytes(33)
}

func vmk_multitx(g *vrand) MultiTx {
	var m MultiTx
	m.SigType = byte(g.n(256))
	if g.p(70) {
		m.SigPub = SignaturePubkey{g.bytes(64), g.bytes(33)}
	}
	if g.p(5) {
		m.SigPub.Pubkey = nil
	}
	if g.p(5) {
		m.SigPub.Signature = nil
	}
	if g.p(5) {
		m.SigPub.Signature = g.bytes(g.n(66))
	}
	return m
}

func vgen_multiscript(g *vrand) (byte, MultiTx, MultiTx, MultiTx, []byte, bool) {
	return byte(1 + g.n(3)), vmk_multitx(g), vmk_multitx(g), vmk_multitx(g), g.bytes(1 + g.n(520)), g.p(50)
}

func vmk_dersig(g *vrand) []byte {
	return SignaturePubkey{g.bytes(64), nil}.encodeSignatureToScript(byte(1 + g.n(3)))
}

func vgen_multiparse(g *vrand) ([]byte, []byte, []byte, []byte, []byte, bool, []byte) {
	k := vmk_keys(g, 3)
	var tail []byte
	if g.p(20) {
		tail = g.bytes(1 + g.n(2))
	}
	return vmk_dersig(g), vmk_dersig(g), k[0], k[1], k[2], g.p(50), tail
}

func vgen_multitotal(g *vrand) []byte {
	n := 1 + g.n(8)
	m := 1 + g.n(n)
	b := []byte{0}
	for i := 0; i < m; i++ {
		b = append(b, vmk_dersig(g)...)
	}
	sw := g.p(50)
	b = append(b, vspec_push(vspec_redeem(byte(m), vmk_keys(g, n)), sw)...)
	b = vspec_whole(b, sw)
	for g.p(50) {
		b[g.n(len(b))] = byte(g.n(256))
	}
	if g.p(30) {
		b = b[:g.n(len(b)+1)]
	}
	return b
}
