//vp:packages ontologyTransaction
//vp:prop P05
package PKG

import (
	"math/big"
)

// the order of P-256 and half of it, written out here: the code's own constants are not trusted
func vspec_order() *big.Int {
	return new(big.Int).SetBytes([]byte{0xff, 0xff, 0xff, 0xff, 0x00, 0x00, 0x00, 0x00, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xbc, 0xe6, 0xfa, 0xad, 0xa7, 0x17, 0x9e, 0x84, 0xf3, 0xb9, 0xca, 0xc2, 0xfc, 0x63, 0x25, 0x51})
}

func vspec_half() *big.Int {
	return new(big.Int).SetBytes([]byte{0x7f, 0xff, 0xff, 0xff, 0x80, 0x00, 0x00, 0x00, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xde, 0x73, 0x7d, 0x56, 0xd3, 0x8b, 0xcf, 0x42, 0x79, 0xdc, 0xe5, 0x61, 0x7e, 0x31, 0x92, 0xa8})
}

// P05: the s half of a normalised signature is never above half the curve order, the r half is untouched,
// and the pair stays equivalent (s or n-s), 32 bytes each.
func vlemma_serilizeS(sig []byte) {
	vassume(len(sig) == 64)
	o := vcopy(sig)
	s0 := new(big.Int).SetBytes(o[32:])
	n := vspec_order()
	vassume(s0.Cmp(n) < 0)
	r := serilizeS(sig)
	vassert(len(r) == 64)
	veqb(r[:32], o[:32])
	s1 := new(big.Int).SetBytes(r[32:])
	vassert(s1.Cmp(vspec_half()) <= 0)
	if s1.Cmp(s0) != 0 {
		vassert(s0.Add(s0, s1).Cmp(n) == 0)
	}
	vreach()
}

// what the signing functions hand out is in the low half
func vspec_low(sig []byte) {
	vassert(len(sig) == 64 && new(big.Int).SetBytes(sig[32:]).Cmp(vspec_half()) <= 0)
	vreach()
}
