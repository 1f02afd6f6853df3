//vp:packages addressEncoder/bech32m
//vp:prop P03
package PKG

import "strings"

// BIP350 polynomial checksum
func vspec_polymod_m(v []byte) uint32 {
	gen := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := uint32(1)
	for i := 0; i < len(v); i++ {
		top := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(v[i])
		for j := uint(0); j < 5; j++ {
			if (top>>j)&1 == 1 {
				c ^= gen[j]
			}
		}
	}
	return c
}

func vspec_group5_m(x []byte, i int) byte {
	r := byte(0)
	for b := 0; b < 5; b++ {
		q := 5*i + b
		v := byte(0)
		if q/8 < len(x) {
			v = x[q/8] >> uint(7-q%8) & 1
		}
		r |= v << uint(4-b)
	}
	return r
}

//vp:opt summ=-*,lin
func vlemma_m_polymod(x [64]byte) {
	v := make([]byte, 64)
	for i := 0; i < 64; i++ {
		v[i] = x[i] & 31
	}
	vassert(uint64(polymod(v)) == uint64(vspec_polymod_m(v)))
	vreach()
}

// payload groups and bech32m check groups in the alphabet behind prefix and separator
//vp:opt summ=-*,lin
func vlemma_m_enc(x [32]byte) {
	alpha := "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	s, err := Bech32mEncode("xch", x[:], alpha)
	vassert(err == nil)
	g := []byte{}
	for i := 0; i < 52; i++ {
		g = append(g, vspec_group5_m(x[:], i))
	}
	m := vspec_polymod_m(append(append([]byte{3, 3, 3, 0, 24, 3, 8}, g...), 0, 0, 0, 0, 0, 0)) ^ 0x2bc830a3
	vassert(len(s) == 62)
	vassert(s[0] == 'x' && s[1] == 'c' && s[2] == 'h' && s[3] == '1')
	for i := 0; i < 52; i++ {
		vassert(s[4+i] == alpha[g[i]])
	}
	for i := 0; i < 6; i++ {
		vassert(s[56+i] == alpha[m>>uint(5*(5-i))&31])
	}
	vreach()
}

// every lower-case string without a further separator of an address' length behind the prefix: refused, or valid characters, bech32m check groups, zero padding and exactly the payload's bits
//vp:opt summ=-*,lin,merge budget=300
func vlemma_m_dec(x [58]byte) {
	alpha := "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	for k := 0; k < 58; k++ {
		vassume(x[k] < 128)
		vassume(x[k]-'A' > 25)
		vassume(x[k] != '1')
	}
	r, err := Bech32mDecode("xch1"+string(x[:]), "xch", alpha)
	if err != nil {
		vreach()
		return
	}
	g := make([]byte, 58)
	for k := 0; k < 58; k++ {
		d := strings.Index(alpha, string([]byte{x[k]}))
		vassert(uint(d) < 32)
		g[k] = byte(d)
	}
	vassert(vspec_polymod_m(append([]byte{3, 3, 3, 0, 24, 3, 8}, g...)) == 0x2bc830a3)
	vassert(g[51]&15 == 0)
	vassert(len(r) == 32)
	for k := 0; k < 32; k++ {
		for b := 0; b < 8; b++ {
			q := 8*k + b
			vassert(r[k]>>uint(7-b)&1 == g[q/5]>>uint(4-q%5)&1)
		}
	}
	vreach()
}

// any string: an answer or an error, never a crash
//vp:opt opaque=verifyChecksum,Convertbits
func vlemma_m_total(s string, prefix string) {
	r, err := Bech32mDecode(s, prefix, "qpzry9x8gf2tvdw0s3jn54khce6mua7l")
	if err != nil {
		vassert(r == nil)
	}
	vreach()
}

// another prefix or another checksum constant is refused
//vp:opt opaque=Decode,Convertbits
func vlemma_m_prefix(s string, prefix string) {
	alpha := "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	h, d, spec, e := Decode(s, alpha)
	r, err := Bech32mDecode(s, prefix, alpha)
	if err == nil {
		vassert(e == nil)
		vassert(h == prefix)
		vassert(spec == 2)
		c, ce := Convertbits(d, 5, 8, false)
		vassert(ce == nil)
		veqb(r, c)
		vreach()
	}
	vreach()
}

//vp:opt opaque=polymod summ=hrpExpand
func vlemma_m_check_total(h string, d []byte) {
	for i := 0; i < len(h); i++ {
		vassume(h[i] < 128)
	}
	verifyChecksum(h, d)
	vreach()
}

func vlemma_m_polymod_total(d []byte) {
	polymod(d)
	vreach()
}

// what was encoded is accepted and comes back
//vp:opt summ=-*,lin,merge budget=300
func vlemma_m_round(x [32]byte) {
	s, _ := Bech32mEncode("xch", x[:], "qpzry9x8gf2tvdw0s3jn54khce6mua7l")
	r, err := Bech32mDecode(s, "xch", "qpzry9x8gf2tvdw0s3jn54khce6mua7l")
	vassert(err == nil)
	vassert(len(r) == 32)
	for k := 0; k < 32; k++ {
		vassert(r[0+k] == x[k])
	}
	vreach()
}

func vgen_m_dec(g *vrand) (x [58]byte) {
	copy(x[:], vmk_bech(g, []int8{3, 3, 3, 0, 24, 3, 8}, 58, 0x2bc830a3, false))
	return
}
