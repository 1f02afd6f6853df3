//vp:packages addressEncoder/base32PolyMod
//vp:prop P03
package PKG

// the 40-bit cashaddr checksum
func vspec_polymod_c(v []int8) uint64 {
	gen := [5]uint64{0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470}
	c := uint64(1)
	for i := 0; i < len(v); i++ {
		top := c >> 35
		c = (c&0x07ffffffff)<<5 ^ uint64(v[i])
		for j := uint(0); j < 5; j++ {
			if (top>>j)&1 == 1 {
				c ^= gen[j]
			}
		}
	}
	return c ^ 1
}

func vspec_group5_c(x []byte, i int) int8 {
	r := byte(0)
	for b := 0; b < 5; b++ {
		q := 5*i + b
		v := byte(0)
		if q/8 < len(x) {
			v = x[q/8] >> uint(7-q%8) & 1
		}
		r |= v << uint(4-b)
	}
	return int8(r)
}

//vp:opt summ=-*,lin
func vlemma_c_polymod(x [54]byte) {
	v := make([]int8, 54)
	for i := 0; i < 54; i++ {
		v[i] = int8(x[i] & 31)
	}
	vassert(uint64(polyMod(v)) == vspec_polymod_c(v))
	vreach()
}

// type byte (shifted to the version byte), hash and check groups in the alphabet behind the prefix
//vp:opt summ=-*,lin
func vlemma_c_enc(t byte, x [20]byte) {
	alpha := "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	s := Encode("bitcoincash", alpha, append([]byte{t}, x[:]...))
	w := append([]byte{t << 3}, x[:]...)
	g := []int8{}
	for i := 0; i < 34; i++ {
		g = append(g, vspec_group5_c(w, i))
	}
	m := vspec_polymod_c(append(append([]int8{2, 9, 20, 3, 15, 9, 14, 3, 1, 19, 8, 0}, g...), 0, 0, 0, 0, 0, 0, 0, 0))
	vassert(len(s) == 54)
	vassert(s[:12] == "bitcoincash:")
	for i := 0; i < 34; i++ {
		vassert(s[12+i] == alpha[g[i]])
	}
	for i := 0; i < 8; i++ {
		vassert(s[46+i] == alpha[m>>uint(5*(7-i))&31])
	}
	vreach()
}

// every string of an address' length behind the prefix: refused, or valid characters, valid check groups and exactly the payload's bits
//vp:opt summ=-*,lin,merge budget=300
func vlemma_c_dec(x [42]byte) {
	r, err := Decode("bitcoincash:"+string(x[:]), "qpzry9x8gf2tvdw0s3jn54khce6mua7l")
	if err != nil {
		vassert(r == nil)
		vreach()
		return
	}
	g := make([]int8, 42)
	for k := 0; k < 42; k++ {
		vassert(x[k] < 128)
		vassert(x[k]-'A' > 25)
		g[k] = charRev[x[k]]
		vassert(uint8(g[k]) < 32)
	}
	vassert(vspec_polymod_c(append([]int8{2, 9, 20, 3, 15, 9, 14, 3, 1, 19, 8, 0}, g...)) == 0)
	vassert(len(r) == 21)
	for k := 0; k < 21; k++ {
		for b := 0; b < 8; b++ {
			q := 8*k + b
			vassert(r[k]>>uint(7-b)&1 == byte(g[q/5])>>uint(4-q%5)&1)
		}
	}
	vreach()
}

// any string: an answer or an error, never a crash; only strings with the network's prefix are accepted
//vp:opt opaque=polyMod,unecxtendPayload
func vlemma_c_total(s string) {
	r, err := Decode(s, "qpzry9x8gf2tvdw0s3jn54khce6mua7l")
	if err != nil {
		vassert(r == nil)
	}
	vreach()
}

func vlemma_c_shl_total(v []int8) {
	vassume(len(v) >= 1)
	n := len(v)
	byteShl1(&v)
	vassert(len(v) == n)
	vreach()
}

func vopq_shl1(v []int8) []int8 { return append([]int8{}, v...) }

func vcontract_shl1(in *[]int8) {
	vassert(len(*in) >= 1)
	t := vopq_shl1(*in)
	vassume(len(t) == len(*in))
	copy(*in, t)
}

//vp:opt opaque=vopq_shl1 contracts=byteShl1:vcontract_shl1
func vlemma_c_unext_total(v []int8) {
	vassume(len(v) >= 2)
	r := unecxtendPayload(v)
	vassert(len(r) == len(v)*5/8)
	vreach()
}

func vlemma_c_polymod_total(v []int8) {
	polyMod(v)
	vreach()
}

// what was encoded is accepted and comes back
//vp:opt summ=-*,lin,merge budget=300
func vlemma_c_round(x [20]byte) {
	r, err := Decode(Encode("bitcoincash", "qpzry9x8gf2tvdw0s3jn54khce6mua7l", append([]byte{0}, x[:]...)), "qpzry9x8gf2tvdw0s3jn54khce6mua7l")
	vassert(err == nil)
	vassert(len(r) == 21)
	for k := 0; k < 20; k++ {
		vassert(r[1+k] == x[k])
	}
	vreach()
}

// what was encoded is accepted and comes back
//vp:opt summ=-*,lin,merge budget=300
func vlemma_c_round_p2sh(x [20]byte) {
	r, err := Decode(Encode("bitcoincash", "qpzry9x8gf2tvdw0s3jn54khce6mua7l", append([]byte{1}, x[:]...)), "qpzry9x8gf2tvdw0s3jn54khce6mua7l")
	vassert(r[0] == 8)
	vassert(err == nil)
	vassert(len(r) == 21)
	for k := 0; k < 20; k++ {
		vassert(r[1+k] == x[k])
	}
	vreach()
}

func vgen_c_dec(g *vrand) (x [42]byte) {
	copy(x[:], vmk_bech(g, []int8{2, 9, 20, 3, 15, 9, 14, 3, 1, 19, 8, 0}, 42, 1, true))
	return
}
