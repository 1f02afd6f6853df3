//vp:packages waykichainTransaction
//vp:prop P02
package PKG

import "github.com/blocktree/go-owcrypt"

// accepted exactly when the address decodes to 25 bytes: the driver's prefix, 20 bytes, their checksum
//vp:opt opaque=Decode
func vlemma_proghash(s string) {
	r, err := GetProgramHashFromAddress(s)
	d, e := Decode(s, BitcoinAlphabet)
	if e != nil || len(d) != 25 || !vsame(d[len(d)-4:], owcrypt.Hash(d[:len(d)-4], 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]) || d[0] != AddressPrefix && d[0] != AddressPrefixTestNet {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(r, d[1:21])
	vreach()
}

func vgen_proghash(g *vrand) string {
	d := append([]byte{AddressPrefix}, g.bytes(20)...)
	if g.p(20) {
		d[0] = byte(g.n(256))
	}
	if g.p(20) {
		d = g.bytes(15 + g.n(10))
		d[0] = AddressPrefix
	}
	d = append(vcopy(d), owcrypt.Hash(d, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]...)
	if g.p(30) {
		d[len(d)-1-g.n(4)] ^= 1
	}
	return Encode(d, BitcoinAlphabet)
}
