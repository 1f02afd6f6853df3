//vp:packages hypercashTransaction
//vp:prop P02
package PKG

import "github.com/blocktree/go-owcrypt"

func vspec_cksum(d []byte) []byte {
	return owcrypt.Hash(owcrypt.Hash(d, 0, owcrypt.HASH_ALG_BLAKE256), 0, owcrypt.HASH_ALG_BLAKE256)[:4]
}

// base58 of prefix || hash || checksum
//vp:opt opaque=Encode
func vlemma_enccheck(prefix, hash []byte) {
	p := vcopy(prefix)
	h := vcopy(hash)
	s := EncodeCheck(prefix, hash)
	d := append(p, h...)
	veqs(s, Encode(append(vcopy(d), vspec_cksum(d)...), BitcoinAlphabet))
	vreach()
}

// any string: accepted exactly when it decodes to at least 24 bytes ending in their checksum; the payload is the 20 bytes before it
//vp:opt opaque=Decode
func vlemma_deccheck(s string) {
	p, h, err := DecodeCheck(s)
	d, e := Decode(s, BitcoinAlphabet)
	if e != nil || len(d) < 24 || !vsame(d[len(d)-4:], vspec_cksum(d[:len(d)-4])) {
		vassert(err != nil && p == nil && h == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(p, d[:len(d)-24])
	veqb(h, d[len(d)-24:len(d)-4])
	vreach()
}

// what was encoded comes back
//vp:opt opaque=Encode,Decode inverse=Decode:Encode
func vlemma_check_rt(prefix []byte, hash [20]byte) {
	p := vcopy(prefix)
	a, b, err := DecodeCheck(EncodeCheck(prefix, hash[:]))
	vassert(err == nil)
	veqb(a, p)
	veqb(b, hash[:])
	vreach()
}

func vgen_deccheck(g *vrand) string {
	s := EncodeCheck(g.bytes(g.n(3)), g.bytes(20))
	if g.p(40) {
		d := g.bytes(g.n(30))
		s = Encode(append(vcopy(d), vspec_cksum(d)...), BitcoinAlphabet)
	}
	if g.p(30) {
		d, _ := Decode(s, BitcoinAlphabet)
		d = vcopy(d)
		d[len(d)-1-g.n(4)] ^= 1
		return Encode(d, BitcoinAlphabet)
	}
	if g.p(20) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}
