//vp:packages zencashTransaction
//vp:prop P09
package PKG

import (
	"encoding/hex"
	"strings"
)

func vspec_lock(a string, ap AddressPrefix, tail []byte) ([]byte, bool) {
	if ap.Bech32Prefix != "" && strings.Index(a, ap.Bech32Prefix) == 0 {
		h, err := Bech32Decode(a)
		if err != nil {
			return nil, false
		}
		return append([]byte{0, byte(len(h))}, h...), true
	}
	p, h, err := DecodeCheck(a)
	if err != nil || len(h) != 20 {
		return nil, false
	}
	if vsame(p, ap.P2PKHPrefix) {
		return append(append(append([]byte{0x76, 0xa9, 0x14}, h...), 0x88, 0xac), tail...), true
	}
	if vsame(p, ap.P2WPKHPrefix) {
		return append(append(append([]byte{0xa9, 0x14}, h...), 0x87), tail...), true
	}
	return nil, false
}

func vspec_newout(vouts []Vout, ap AddressPrefix, bh string, ht uint64, hb []byte, i int) {
	vassume(i >= 0 && i < len(vouts))
	r, err := newTxOutForEmptyTrans(vouts, ap, bh, ht)
	id, e := hex.DecodeString(bh)
	if e != nil || len(id) != 32 {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	tail := append(append([]byte{0x20}, vrev(id)...), byte(len(hb)))
	tail = append(append(tail, hb...), 0xb4)
	lock, ok := vspec_lock(vouts[i].Address, ap, tail)
	if !ok {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	if err != nil {
		vassert(r == nil)
		return
	}
	vassert(len(r) == len(vouts))
	veqb(r[i].amount, vspec_le64(vouts[i].Amount))
	veqb(r[i].lockScript, lock)
	vreach()
}


//vp:opt opaque=Bech32Decode,DecodeCheck budget=300
func vlemma_newout_h0(vouts []Vout, ap AddressPrefix, bh string, i int) {
	vspec_newout(vouts, ap, bh, 0, []byte{}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_h1(vouts []Vout, ap AddressPrefix, bh string, b0 byte, i int) {
	vassume(b0 != 0 && b0 < 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0, []byte{b0}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300
func vlemma_newout_s1(vouts []Vout, ap AddressPrefix, bh string, b0 byte, i int) {
	vassume(b0 >= 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0, []byte{b0, 0}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_h2(vouts []Vout, ap AddressPrefix, bh string, b0, b1 byte, i int) {
	vassume(b1 != 0 && b1 < 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8, []byte{b0, b1}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_s2(vouts []Vout, ap AddressPrefix, bh string, b0, b1 byte, i int) {
	vassume(b1 >= 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8, []byte{b0, b1, 0}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300
func vlemma_newout_h3(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2 byte, i int) {
	vassume(b2 != 0 && b2 < 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16, []byte{b0, b1, b2}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_s3(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2 byte, i int) {
	vassume(b2 >= 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16, []byte{b0, b1, b2, 0}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_h4(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2, b3 byte, i int) {
	vassume(b3 != 0 && b3 < 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16 | uint64(b3)<<24, []byte{b0, b1, b2, b3}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_s4(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2, b3 byte, i int) {
	vassume(b3 >= 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16 | uint64(b3)<<24, []byte{b0, b1, b2, b3, 0}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_h5(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2, b3, b4 byte, i int) {
	vassume(b4 != 0 && b4 < 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16 | uint64(b3)<<24 | uint64(b4)<<32, []byte{b0, b1, b2, b3, b4}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_s5(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2, b3, b4 byte, i int) {
	vassume(b4 >= 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16 | uint64(b3)<<24 | uint64(b4)<<32, []byte{b0, b1, b2, b3, b4, 0}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_h6(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2, b3, b4, b5 byte, i int) {
	vassume(b5 != 0 && b5 < 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16 | uint64(b3)<<24 | uint64(b4)<<32 | uint64(b5)<<40, []byte{b0, b1, b2, b3, b4, b5}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_s6(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2, b3, b4, b5 byte, i int) {
	vassume(b5 >= 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16 | uint64(b3)<<24 | uint64(b4)<<32 | uint64(b5)<<40, []byte{b0, b1, b2, b3, b4, b5, 0}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_h7(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2, b3, b4, b5, b6 byte, i int) {
	vassume(b6 != 0 && b6 < 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16 | uint64(b3)<<24 | uint64(b4)<<32 | uint64(b5)<<40 | uint64(b6)<<48, []byte{b0, b1, b2, b3, b4, b5, b6}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_s7(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2, b3, b4, b5, b6 byte, i int) {
	vassume(b6 >= 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16 | uint64(b3)<<24 | uint64(b4)<<32 | uint64(b5)<<40 | uint64(b6)<<48, []byte{b0, b1, b2, b3, b4, b5, b6, 0}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_h8(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2, b3, b4, b5, b6, b7 byte, i int) {
	vassume(b7 != 0 && b7 < 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16 | uint64(b3)<<24 | uint64(b4)<<32 | uint64(b5)<<40 | uint64(b6)<<48 | uint64(b7)<<56, []byte{b0, b1, b2, b3, b4, b5, b6, b7}, i)
}

//vp:opt opaque=Bech32Decode,DecodeCheck budget=300 tier=thorough
func vlemma_newout_s8(vouts []Vout, ap AddressPrefix, bh string, b0, b1, b2, b3, b4, b5, b6, b7 byte, i int) {
	vassume(b7 >= 0x80)
	vspec_newout(vouts, ap, bh, uint64(b0)<<0 | uint64(b1)<<8 | uint64(b2)<<16 | uint64(b3)<<24 | uint64(b4)<<32 | uint64(b5)<<40 | uint64(b6)<<48 | uint64(b7)<<56, []byte{b0, b1, b2, b3, b4, b5, b6, b7, 0}, i)
}

func vmk_addr(g *vrand, ap AddressPrefix) string {
	ps := [][]byte{ap.P2PKHPrefix, ap.P2WPKHPrefix, {7}}
	if g.p(80) || g.p(50) {
		return EncodeCheck(append([]byte{}, ps[g.n(3)]...), g.bytes(20))
	}
	if g.p(80) {
		return Bech32Encode("bc", BTCBech32Alphabet, g.bytes(20+12*g.n(2)))
	}
	return g.str()
}

func vmk_prefix(g *vrand) AddressPrefix {
	ap := AddressPrefix{P2PKHPrefix: []byte{0}, P2WPKHPrefix: []byte{5}, Bech32Prefix: "bc"}
	if g.p(30) {
		ap.P2PKHPrefix = g.bytes(2)
	}
	if g.p(30) {
		ap.Bech32Prefix = ""
	}
	return ap
}

func vmk_vouts(g *vrand, ap AddressPrefix) []Vout {
	var r []Vout
	for i := 0; i <= g.n(3); i++ {
		r = append(r, Vout{Address: vmk_addr(g, ap), Amount: g.u64()})
	}
	return r
}

func vgen_newout_h0(g *vrand) ([]Vout, AddressPrefix, string, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), g.n(len(v))
}

func vgen_newout_h1(g *vrand) ([]Vout, AddressPrefix, string, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(1+g.n(127)), g.n(len(v))
}

func vgen_newout_s1(g *vrand) ([]Vout, AddressPrefix, string, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(128+g.n(128)), g.n(len(v))
}

func vgen_newout_h2(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(1+g.n(127)), g.n(len(v))
}

func vgen_newout_s2(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(128+g.n(128)), g.n(len(v))
}

func vgen_newout_h3(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(1+g.n(127)), g.n(len(v))
}

func vgen_newout_s3(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(128+g.n(128)), g.n(len(v))
}

func vgen_newout_h4(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(1+g.n(127)), g.n(len(v))
}

func vgen_newout_s4(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(128+g.n(128)), g.n(len(v))
}

func vgen_newout_h5(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(1+g.n(127)), g.n(len(v))
}

func vgen_newout_s5(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(128+g.n(128)), g.n(len(v))
}

func vgen_newout_h6(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(1+g.n(127)), g.n(len(v))
}

func vgen_newout_s6(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(128+g.n(128)), g.n(len(v))
}

func vgen_newout_h7(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, byte, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(1+g.n(127)), g.n(len(v))
}

func vgen_newout_s7(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, byte, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(128+g.n(128)), g.n(len(v))
}

func vgen_newout_h8(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, byte, byte, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(1+g.n(127)), g.n(len(v))
}

func vgen_newout_s8(g *vrand) ([]Vout, AddressPrefix, string, byte, byte, byte, byte, byte, byte, byte, byte, int) {
	ap := vmk_prefix(g)
	v := vmk_vouts(g, ap)
	return v, ap, hex.EncodeToString(g.bytes(32)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(g.n(256)), byte(128+g.n(128)), g.n(len(v))
}
