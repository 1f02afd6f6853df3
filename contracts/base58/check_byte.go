//vp:packages aliencoinTransaction btcLikeTxDriver ontologyTransaction vergeTransaction
//vp:prop P02
package PKG

import "github.com/blocktree/go-owcrypt"

func vspec_cksum(d []byte) []byte { return owcrypt.Hash(d, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4] }

// base58 of prefix || hash || checksum
//vp:opt opaque=Encode
func vlemma_enccheck(prefix byte, hash []byte) {
	p := []byte{prefix}
	h := vcopy(hash)
	s := EncodeCheck(prefix, hash)
	d := append(p, h...)
	veqs(s, Encode(append(vcopy(d), vspec_cksum(d)...), BitcoinAlphabet))
	vreach()
}

// any string: accepted exactly when it decodes to at least 5 bytes ending in their checksum; the first byte is the prefix, the rest the payload
//vp:opt opaque=Decode
func vlemma_deccheck(s string) {
	p, h, err := DecodeCheck(s)
	d, e := Decode(s, BitcoinAlphabet)
	if e != nil || len(d) < 5 || !vsame(d[len(d)-4:], vspec_cksum(d[:len(d)-4])) {
		vassert(err != nil && p == 0 && h == nil)
		vreach()
		return
	}
	vassert(err == nil)
	vassert(p == d[0])
	veqb(h, d[1:len(d)-4])
	vreach()
}

// what was encoded comes back
//vp:opt opaque=Encode,Decode inverse=Decode:Encode
func vlemma_check_rt(prefix byte, hash []byte) {
	h := vcopy(hash)
	a, b, err := DecodeCheck(EncodeCheck(prefix, hash))
	vassert(err == nil)
	vassert(a == prefix)
	veqb(b, h)
	vreach()
}

func vgen_deccheck(g *vrand) string {
	s := EncodeCheck(byte(g.n(256)), g.bytes(20))
	if g.p(40) {
		d := g.bytes(g.n(30))
		s = Encode(append(vcopy(d), vspec_cksum(d)...), BitcoinAlphabet)
	}
	if g.p(30) {
		d, _ := Decode(s, BitcoinAlphabet)
		d = vcopy(d)
		d[len(d)-1-g.n(4)] ^= 1
		return Encode(d, BitcoinAlphabet)
	}
	if g.p(20) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}
