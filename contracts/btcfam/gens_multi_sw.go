//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction zencashTransaction
// generator (no part of any proof)
package PKG

func vgen_createmulti(g *vrand) (byte, [][]byte, bool, AddressPrefix, int) {
	n := 1 + g.n(17)
	k := vmk_keys(g, n)
	if g.p(30) {
		k[g.n(n)] = g.bytes(65)
	}
	if g.p(10) {
		k[g.n(n)] = g.bytes(g.n(70))
	}
	return byte(g.n(n + 2)), k, g.p(50), AddressPrefix{P2PKHPrefix: g.bytes(1), P2WPKHPrefix: g.bytes(1)}, g.n(n)
}
