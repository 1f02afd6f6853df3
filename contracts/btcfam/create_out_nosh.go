//vp:packages hcTransaction cxcTransaction
//vp:prop P09
package PKG

import (
	"strings"
)

func vspec_lock(a string, ap AddressPrefix) ([]byte, bool) {
	if ap.Bech32Prefix != "" && strings.Index(a, ap.Bech32Prefix) == 0 {
		h, err := Bech32Decode(a)
		if err != nil {
			return nil, false
		}
		return append([]byte{0, byte(len(h))}, h...), true
	}
	p, h, err := DecodeCheck(a)
	if err != nil || len(h) != 20 {
		return nil, false
	}
	if vsame(p, ap.P2PKHPrefix) {
		return append(append([]byte{0x76, 0xa9, 0x14}, h...), 0x88, 0xac), true
	}
	if vsame(p, ap.P2WPKHPrefix) {
		return append(append([]byte{0xa9, 0x14}, h...), 0x87), true
	}
	return nil, false
}

//vp:opt opaque=Bech32Decode,DecodeCheck
func vlemma_newout(vouts []Vout, ap AddressPrefix, i int) {
	vassume(i >= 0 && i < len(vouts))
	r, err := newTxOutForEmptyTrans(vouts, ap)
	lock, ok := vspec_lock(vouts[i].Address, ap)
	if !ok {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	if err != nil {
		vassert(r == nil)
		return
	}
	vassert(len(r) == len(vouts))
	veqb(r[i].amount, vspec_le64(vouts[i].Amount))
	veqb(r[i].lockScript, lock)
	vreach()
}


func vmk_addr(g *vrand, ap AddressPrefix) string {
	ps := [][]byte{ap.P2PKHPrefix, ap.P2WPKHPrefix, {7}}
	if g.p(80) || g.p(50) {
		return EncodeCheck(append([]byte{}, ps[g.n(3)]...), g.bytes(20))
	}
	if g.p(80) {
		return Bech32Encode("bc", BTCBech32Alphabet, g.bytes(20+12*g.n(2)))
	}
	return g.str()
}

func vmk_prefix(g *vrand) AddressPrefix {
	ap := AddressPrefix{P2PKHPrefix: []byte{0}, P2WPKHPrefix: []byte{5}, Bech32Prefix: "bc"}
	if g.p(30) {
		ap.P2PKHPrefix = g.bytes(2)
	}
	if g.p(30) {
		ap.Bech32Prefix = ""
	}
	return ap
}

func vmk_vouts(g *vrand, ap AddressPrefix) []Vout {
	var r []Vout
	for i := 0; i <= g.n(3); i++ {
		r = append(r, Vout{Address: vmk_addr(g, ap), Amount: g.u64()})
	}
	return r
}

func vgen_newout(g *vrand) ([]Vout, AddressPrefix, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, g.n(len(v))
}
