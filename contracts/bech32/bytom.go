//vp:packages bytomTransaction
//vp:prop P03
package PKG

import "strings"

func vspec_polymod_b(v []byte) uint32 {
	gen := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := uint32(1)
	for i := 0; i < len(v); i++ {
		top := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(v[i])
		for j := uint(0); j < 5; j++ {
			if (top>>j)&1 == 1 {
				c ^= gen[j]
			}
		}
	}
	return c
}

func vspec_group5_b(x []byte, i int) byte {
	r := byte(0)
	for b := 0; b < 5; b++ {
		q := 5*i + b
		v := byte(0)
		if q/8 < len(x) {
			v = x[q/8] >> uint(7-q%8) & 1
		}
		r |= v << uint(4-b)
	}
	return r
}

// version group 0, payload groups and check groups behind the prefix
//vp:opt summ=-*,lin,merge budget=300
func vlemma_by_enc20(x [20]byte) {
	alpha := "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	s, err := encodeSegWitAddress("bm", 0, x[:])
	vassert(err == nil)
	g := []byte{0}
	for i := 0; i < 32; i++ {
		g = append(g, vspec_group5_b(x[:], i))
	}
	m := vspec_polymod_b(append(append([]byte{3, 3, 0, 2, 13}, g...), 0, 0, 0, 0, 0, 0)) ^ 1
	vassert(len(s) == 42)
	vassert(s[0] == 'b' && s[1] == 'm' && s[2] == '1')
	for i := 0; i < 33; i++ {
		vassert(s[3+i] == alpha[g[i]])
	}
	for i := 0; i < 6; i++ {
		vassert(s[36+i] == alpha[m>>uint(5*(5-i))&31])
	}
	vreach()
}

// what was encoded is accepted and comes back
//vp:opt summ=-*,lin,merge budget=300
func vlemma_by_round20(x [20]byte) {
	s, _ := encodeSegWitAddress("bm", 0, x[:])
	v, r, err := decodeSegWitAddress(s)
	vassert(err == nil && v == 0)
	vassert(len(r) == 20)
	for k := 0; k < 20; k++ {
		vassert(r[k] == x[k])
	}
	vreach()
}

// every lower-case string without a further separator of an address' length: refused, or valid characters, check groups, zero padding and exactly the payload's bits
//vp:opt summ=-*,lin,merge budget=400
func vlemma_by_dec20(x [39]byte) {
	alpha := "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	for k := 0; k < 39; k++ {
		vassume(x[k] < 128)
		vassume(x[k]-'A' > 25)
		vassume(x[k] != '1')
	}
	v, r, err := decodeSegWitAddress("bm1" + string(x[:]))
	if err != nil {
		vreach()
		return
	}
	g := make([]byte, 39)
	for k := 0; k < 39; k++ {
		d := strings.Index(alpha, string([]byte{x[k]}))
		vassert(uint(d) < 32)
		g[k] = byte(d)
	}
	vassert(vspec_polymod_b(append([]byte{3, 3, 0, 2, 13}, g...)) == 1)
	vassert(v == g[0] && v <= 16)
	vassert(len(r) == 20)
	for k := 0; k < 20; k++ {
		for b := 0; b < 8; b++ {
			q := 8*k + b
			vassert(r[k]>>uint(7-b)&1 == g[1+q/5]>>uint(4-q%5)&1)
		}
	}
	vreach()
}

// version group 0, payload groups and check groups behind the prefix
//vp:opt summ=-*,lin,merge budget=300
func vlemma_by_enc32(x [32]byte) {
	alpha := "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	s, err := encodeSegWitAddress("bm", 0, x[:])
	vassert(err == nil)
	g := []byte{0}
	for i := 0; i < 52; i++ {
		g = append(g, vspec_group5_b(x[:], i))
	}
	m := vspec_polymod_b(append(append([]byte{3, 3, 0, 2, 13}, g...), 0, 0, 0, 0, 0, 0)) ^ 1
	vassert(len(s) == 62)
	vassert(s[0] == 'b' && s[1] == 'm' && s[2] == '1')
	for i := 0; i < 53; i++ {
		vassert(s[3+i] == alpha[g[i]])
	}
	for i := 0; i < 6; i++ {
		vassert(s[56+i] == alpha[m>>uint(5*(5-i))&31])
	}
	vreach()
}

// what was encoded is accepted and comes back
//vp:opt summ=-*,lin,merge budget=300
func vlemma_by_round32(x [32]byte) {
	s, _ := encodeSegWitAddress("bm", 0, x[:])
	v, r, err := decodeSegWitAddress(s)
	vassert(err == nil && v == 0)
	vassert(len(r) == 32)
	for k := 0; k < 32; k++ {
		vassert(r[k] == x[k])
	}
	vreach()
}

// every lower-case string without a further separator of an address' length: refused, or valid characters, check groups, zero padding and exactly the payload's bits
//vp:opt summ=-*,lin,merge budget=400
func vlemma_by_dec32(x [59]byte) {
	alpha := "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	for k := 0; k < 59; k++ {
		vassume(x[k] < 128)
		vassume(x[k]-'A' > 25)
		vassume(x[k] != '1')
	}
	v, r, err := decodeSegWitAddress("bm1" + string(x[:]))
	if err != nil {
		vreach()
		return
	}
	g := make([]byte, 59)
	for k := 0; k < 59; k++ {
		d := strings.Index(alpha, string([]byte{x[k]}))
		vassert(uint(d) < 32)
		g[k] = byte(d)
	}
	vassert(vspec_polymod_b(append([]byte{3, 3, 0, 2, 13}, g...)) == 1)
	vassert(v == g[0] && v <= 16)
	vassert(len(r) == 32)
	for k := 0; k < 32; k++ {
		for b := 0; b < 8; b++ {
			q := 8*k + b
			vassert(r[k]>>uint(7-b)&1 == g[1+q/5]>>uint(4-q%5)&1)
		}
	}
	vreach()
}

// any string: an answer or an error, never a crash
//vp:opt opaque=bech32VerifyChecksum,bech32Checksum
func vlemma_by_total(s string) {
	h, r, err := Bech32Decode(s)
	if err != nil {
		vassert(r == nil && h == "")
	}
	vreach()
}

//vp:opt opaque=Bech32Decode,ConvertBits
func vlemma_by_segwit_total(s string) {
	v, r, err := decodeSegWitAddress(s)
	if err == nil {
		vassert(v <= 16)
		vassert(len(r) >= 2 && len(r) <= 40)
		if v == 0 {
			vassert(len(r) == 20 || len(r) == 32)
		}
		vreach()
	}
	vreach()
}

func vgen_by_dec20(g *vrand) (x [39]byte) {
	copy(x[:], vmk_bech(g, []int8{3, 3, 0, 2, 13}, 39, 1, false))
	return
}

func vgen_by_dec32(g *vrand) (x [59]byte) {
	copy(x[:], vmk_bech(g, []int8{3, 3, 0, 2, 13}, 59, 1, false))
	return
}
