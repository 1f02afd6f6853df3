//vp:packages vergeTransaction
//vp:prop P15
package PKG

func vmk_head(g *vrand, t *TxStruct) { t.LockTime, t.TimeInterval = g.bytes(4), g.bytes(4) }

func vgen_create(g *vrand) ([]Vin, []Vout, uint32, uint32, int) {
	var in []Vin
	var out []Vout
	for i := 0; i < g.n(3)+1; i++ {
		in = append(in, vmk_in(g))
		out = append(out, vgen_newout(g))
	}
	return in, out, uint32(g.u64()), uint32(g.u64()), g.n(3)
}
