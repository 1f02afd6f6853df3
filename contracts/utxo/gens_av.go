//vp:packages aliencoinTransaction vergeTransaction
//vp:prop P15
package PKG

func vmk_out(g *vrand) TxOut {
	s := append(append([]byte{0x19, 0x76, 0xa9, 0x14}, g.bytes(20)...), 0x88, 0xac)
	if g.p(40) {
		s = append(append([]byte{0x17, 0xa9, 0x14}, g.bytes(20)...), 0x87)
	}
	return TxOut{Amount: g.bytes(8), LockScript: s}
}

func vgen_newout(g *vrand) Vout {
	b := byte(vspec_p2pkh)
	if g.p(40) {
		b = vspec_p2sh
	}
	if g.p(10) {
		b = byte(g.n(256))
	}
	a := EncodeCheck(b, g.bytes(20))
	if g.p(10) {
		a = string(g.mutb([]byte(a)))
	}
	return Vout{Address: a, Amount: g.u64()}
}

func vgen_decodelock(g *vrand) (string, int) { return vmk_empty(g), g.n(3) }
