//vp:packages vollarTransaction
//vp:prop P15
package PKG

func vmk_head(g *vrand, t *TxStruct) { t.Flag = 0 }

func vmk_out(g *vrand) TxOut {
	s := append(append([]byte{0x19, 0x76, 0xa9, 0x14}, g.bytes(20)...), 0x88, 0xac)
	if g.p(40) {
		s = append(append([]byte{0x17, 0xa9, 0x14}, g.bytes(20)...), 0x87)
	}
	return TxOut{Amount: g.bytes(8), LockScript: s, HashData: g.bytes(32)}
}

func vgen_newout(g *vrand) Vout {
	b := []byte{0x10, 0x1c}
	if g.p(40) {
		b[1] = 0x41
	}
	if g.p(10) {
		b[1] = byte(g.n(256))
	}
	a := EncodeCheck(b, g.bytes(20))
	if g.p(10) {
		a = string(g.mutb([]byte(a)))
	}
	return Vout{Address: a, Amount: g.u64()}
}

func vgen_create(g *vrand) ([]Vin, []Vout, int) {
	var in []Vin
	var out []Vout
	for i := 0; i < g.n(3)+1; i++ {
		in = append(in, vmk_in(g))
		out = append(out, vgen_newout(g))
	}
	return in, out, g.n(3)
}
