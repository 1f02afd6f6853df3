//vp:packages owkeychain
//vp:prop P14
package PKG

import (
	"strings"

	"github.com/blocktree/go-owcrypt"
)

func vspec_be32(x uint32) []byte {
	return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

func vspec_dsha(b []byte) []byte {
	return owcrypt.Hash(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256), 0, owcrypt.HASH_ALG_SHA256)
}

func vlemma_u32(x uint32, b []byte) {
	veqb(uint32ToBytes(x), vspec_be32(x))
	vassert(bytesToUInt32(vspec_be32(x)) == x)
	vassume(len(b) == 4)
	veqb(uint32ToBytes(bytesToUInt32(b)), b)
	vreach()
}

//vp:opt opaque=Encode
func vlemma_b58check_enc(data, fix []byte) {
	d0, f0 := vcopy(data), vcopy(fix)
	s := Base58checkEncode(data, fix)
	p := append(append([]byte{}, f0...), d0...)
	veqs(s, Encode(append(vcopy(p), vspec_dsha(p)[:4]...), BitcoinAlphabet))
	veqb(data, d0)
	veqb(fix, f0)
	vreach()
}

//vp:opt opaque=Decode
func vlemma_b58check_dec(s string, fix []byte) {
	r, err := Base58checkDecode(s, fix)
	d, e := Decode(s, BitcoinAlphabet)
	if e != nil || len(d) < len(fix)+4 {
		vassert(r == nil && err != nil)
		vreach()
		return
	}
	n := len(d) - 4
	if !vsame(d[:len(fix)], fix) || !vsame(d[n:], vspec_dsha(d[:n])[:4]) {
		vassert(r == nil && err != nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(r, d[len(fix):n])
	vreach()
}

func vspec_zeroed(curve uint32, private bool) bool {
	return private || vspec_edw(curve)
}

func vspec_bls(c uint32) bool {
	return c == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL || c == owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG
}

// curve || depth || parent fingerprint || index || chain code || [0] key, under the prefix of its kind
//vp:opt opaque=Base58checkEncode
func vlemma_owencode(key, chain, fp []byte, depth uint8, ser uint32, private bool, curve uint32) {
	k := NewExtendedKey(key, chain, fp, depth, ser, private, curve)
	s := k.OWEncode()
	b := append(vspec_be32(curve), depth)
	b = append(b, fp...)
	b = append(b, vspec_be32(ser)...)
	b = append(b, chain...)
	if vspec_zeroed(curve, private) {
		b = append(b, 0)
	}
	b = append(b, key...)
	p := []byte{0x07, 0xa8, 0x10, 0x31, 0xa2}
	if private {
		p = []byte{0x07, 0xa8, 0x10, 0x0c, 0x28}
	} else if vspec_bls(curve) {
		p = []byte{0x3e, 0x00, 0xfa, 0xea, 0x69}
	}
	veqs(s, Base58checkEncode(b, p))
	vreach()
}

// any text: an error, or the fields of the decoded payload, byte for byte
//vp:opt opaque=Base58checkDecode
func vlemma_owdecode(s string) {
	k, err := OWDecode(s)
	private := strings.Index(s, "owprv") == 0
	if strings.Index(s, "owpub") != 0 && !private {
		vassert(k == nil && err != nil)
		vreach()
		return
	}
	var d []byte
	var e error
	if strings.Index(s, "owpub") == 0 {
		private = false
		d, e = Base58checkDecode(s, []byte{0x07, 0xa8, 0x10, 0x31, 0xa2})
		if e != nil {
			d, e = Base58checkDecode(s, []byte{0x3e, 0x00, 0xfa, 0xea, 0x69})
		}
	} else {
		d, e = Base58checkDecode(s, []byte{0x07, 0xa8, 0x10, 0x0c, 0x28})
	}
	if e != nil {
		vassert(k == nil && err != nil)
		return
	}
	if err != nil {
		vassert(k == nil)
		vassert(len(d) < 46 || (vspec_zeroed(bytesToUInt32(d[:4]), private) && d[45] != 0))
		vreach()
		return
	}
	vassert(len(d) >= 46 && k.isPrivate == private && k.depth == d[4])
	veqb(vspec_be32(k.curveType), d[:4])
	veqb(k.parentFP, d[5:9])
	veqb(vspec_be32(k.serializes), d[9:13])
	veqb(k.chainCode, d[13:45])
	if vspec_zeroed(k.curveType, private) {
		vassert(d[45] == 0)
		veqb(k.key, d[46:])
		vreach()
	} else {
		veqb(k.key, d[45:])
		vreach()
	}
}

// decode(encode(key)) == key, given that the text decoder inverts the text encoder
//vp:opt opaque=Encode,Decode inverse=Decode:Encode
func vlemma_owroundtrip(key, chain, fp []byte, depth uint8, ser uint32, private bool, curve uint32) {
	vassume(len(fp) == 4 && len(chain) == 32 && len(key) >= 1)
	vassume(vspec_weier(curve) || vspec_edw(curve))
	vassume(len(key) == 32 && (private || vspec_edw(curve)) || len(key) == 33 && !private && vspec_weier(curve))
	k := NewExtendedKey(key, chain, fp, depth, ser, private, curve)
	s := k.OWEncode()
	vassume(private && strings.Index(s, "owprv") == 0 && strings.Index(s, "owpub") != 0 || !private && strings.Index(s, "owpub") == 0)
	r, err := OWDecode(s)
	vassert(err == nil && r.depth == depth && r.serializes == ser && r.isPrivate == private && r.curveType == curve)
	veqb(r.key, key)
	veqb(r.chainCode, chain)
	veqb(r.parentFP, fp)
	vreach()
}

//vp:opt opaque=Encode,Decode inverse=Decode:Encode
func vlemma_chain(pub, code []byte, curve uint32) {
	vassume((len(pub) == 33 && pub[0] != 0 || len(pub) == 32) && len(code) == 32)
	s := MultiSigShare{pub, code, curve}.ChianEncode()
	b := []byte{0x08, 0x61, 0x24, 0x96, 0x12, 0xae, 0x5c}
	if len(pub) == 32 {
		b = append(b, 0)
	}
	b = append(b, pub...)
	b = append(b, code...)
	b = append(b, vspec_be32(curve)...)
	veqs(s, Encode(b, BitcoinAlphabet))
	vassume(strings.Index(s, "owchain") == 0)
	m, err := ChainDecode(s)
	vassert(err == nil && m.CurveType == curve)
	veqb(m.Pubkey, pub)
	veqb(m.ChainCode, code)
	vreach()
}

//vp:opt opaque=Decode
func vlemma_chaindec(s string) {
	m, err := ChainDecode(s)
	if err != nil {
		vassert(m == nil)
		return
	}
	d, e := Decode(s, BitcoinAlphabet)
	vassert(e == nil && len(d) == 76)
	veqb(d[:7], []byte{0x08, 0x61, 0x24, 0x96, 0x12, 0xae, 0x5c})
	veqb(m.ChainCode, d[40:72])
	veqb(vspec_be32(m.CurveType), d[72:])
	vreach()
}

func vmk_parts(g *vrand) ([]byte, []byte, []byte, uint8, uint32, bool, uint32) {
	k := vmk_key(g)
	return k.key, k.chainCode, k.parentFP, k.depth, k.serializes, k.isPrivate, k.curveType
}

func vgen_owencode(g *vrand) ([]byte, []byte, []byte, uint8, uint32, bool, uint32) { return vmk_parts(g) }
func vgen_owroundtrip(g *vrand) ([]byte, []byte, []byte, uint8, uint32, bool, uint32) {
	return vmk_parts(g)
}

func vgen_owdecode(g *vrand) string {
	s := vmk_key(g).OWEncode()
	if g.p(30) {
		b := g.bytes(g.n(100))
		p := [][]byte{{0x07, 0xa8, 0x10, 0x31, 0xa2}, {0x07, 0xa8, 0x10, 0x0c, 0x28}, {0x3e, 0x00, 0xfa, 0xea, 0x69}}[g.n(3)]
		s = Base58checkEncode(b, vcopy(p))
	} else if g.p(50) {
		if d, err := Decode(s, BitcoinAlphabet); err == nil && len(d) > 60 {
			b := vcopy(d[5 : len(d)-4])
			b[[]int{0, 3, 4, 45, 45, g.n(len(b))}[g.n(6)]] = byte(g.n(256))
			return Base58checkEncode(b, vcopy(d[:5]))
		}
	}
	if g.p(30) {
		return string(g.mutb([]byte(s)))
	}
	return s
}

func vgen_b58check_dec(g *vrand) (string, []byte) {
	f := g.bytes(g.n(6))
	s := Base58checkEncode(g.bytes(g.n(60)), vcopy(f))
	if g.p(30) {
		s = string(g.mutb([]byte(s)))
	}
	return s, f
}

func vgen_chain(g *vrand) ([]byte, []byte, uint32) {
	k := vmk_key(g).GetPublicKey()
	return k.key, k.chainCode, k.curveType
}

func vgen_chaindec(g *vrand) string {
	k := vmk_key(g).GetPublicKey()
	s := MultiSigShare{k.key, k.chainCode, k.curveType}.ChianEncode()
	if g.p(30) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}
