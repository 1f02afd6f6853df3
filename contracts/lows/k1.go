//vp:packages aliencoinTransaction binancechainTransaction bitcoincashTransaction bitcoinsvTransaction btcLikeTxDriver btcTransaction cosmosTransaction cxcTransaction evaioTransaction hcTransaction hypercashTransaction mateverseTransaction omniTransaction rippleTransaction vergeTransaction vollarTransaction zencashTransaction
//vp:prop P05
package PKG

import (
	"math/big"
)

// the order of secp256k1 and half of it, written out here: the code's own constants are not trusted
func vspec_order() *big.Int {
	return new(big.Int).SetBytes([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xfe, 0xba, 0xae, 0xdc, 0xe6, 0xaf, 0x48, 0xa0, 0x3b, 0xbf, 0xd2, 0x5e, 0x8c, 0xd0, 0x36, 0x41, 0x41})
}

func vspec_half() *big.Int {
	return new(big.Int).SetBytes([]byte{0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x5d, 0x57, 0x6e, 0x73, 0x57, 0xa4, 0x50, 0x1d, 0xdf, 0xe9, 0x2f, 0x46, 0x68, 0x1b, 0x20, 0xa0})
}

// P05: the s half of a normalised signature is never above half the curve order, the r half is untouched,
// and the pair stays equivalent (s or n-s), 32 bytes each.
func vlemma_serilizeS(sig []byte) {
	vassume(len(sig) == 64)
	o := vcopy(sig)
	s0 := new(big.Int).SetBytes(o[32:])
	n := vspec_order()
	vassume(s0.Cmp(n) < 0)
	r := serilizeS(sig)
	vassert(len(r) == 64)
	veqb(r[:32], o[:32])
	s1 := new(big.Int).SetBytes(r[32:])
	vassert(s1.Cmp(vspec_half()) <= 0)
	if s1.Cmp(s0) != 0 {
		vassert(s0.Add(s0, s1).Cmp(n) == 0)
	}
	vreach()
}

// what the signing functions hand out is in the low half
func vspec_low(sig []byte) {
	vassert(len(sig) == 64 && new(big.Int).SetBytes(sig[32:]).Cmp(vspec_half()) <= 0)
	vreach()
}
