//vp:packages btcTransaction hcTransaction zencashTransaction cxcTransaction omniTransaction btcLikeTxDriver cosmosTransaction evaioTransaction addressEncoder/bech32
//vp:prop P03
package PKG

// BIP173 polynomial checksum
func vspec_polymod(v []int8) uint32 {
	gen := [5]uint32{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	c := uint32(1)
	for i := 0; i < len(v); i++ {
		top := c >> 25
		c = (c&0x1ffffff)<<5 ^ uint32(v[i])
		for j := uint(0); j < 5; j++ {
			if (top>>j)&1 == 1 {
				c ^= gen[j]
			}
		}
	}
	return c
}

func vspec_groups(x []byte) []int8 {
	r := make([]int8, len(x))
	for i := 0; i < len(x); i++ {
		r[i] = int8(x[i] & 31)
	}
	return r
}

func vspec_hrp(p []byte) []int8 {
	r := []int8{}
	for i := 0; i < len(p); i++ {
		r = append(r, int8(p[i]>>5))
	}
	r = append(r, 0)
	for i := 0; i < len(p); i++ {
		r = append(r, int8(p[i]&31))
	}
	return r
}

// the checksum polynomial over as many groups as an address can have
//vp:opt summ=-*,lin bounded=strings-of-90-groups
func vlemma_b32_polymod(x [90]byte) {
	g := vspec_groups(x[:])
	vassert(polyMod(g) == vspec_polymod(g)^1)
	vreach()
}

// the six check groups are those of BIP173, for a two- and a six-letter prefix
//vp:opt summ=-*,lin
func vlemma_b32_cksum2(p [2]byte, x [33]byte) {
	g := vspec_groups(x[:])
	c := calcChecksum(string(p[:]), g)
	vassert(len(c) == 6)
	m := vspec_polymod(append(append(vspec_hrp(p[:]), g...), 0, 0, 0, 0, 0, 0)) ^ 1
	for i := 0; i < 6; i++ {
		vassert(c[i] == int8(m>>uint(5*(5-i))&31))
	}
	vassert(verifyChecksum(string(p[:]), append(append([]int8{}, g...), c...)))
	vreach()
}

//vp:opt summ=-*,lin
func vlemma_b32_cksum6(p [6]byte, x [53]byte) {
	g := vspec_groups(x[:])
	c := calcChecksum(string(p[:]), g)
	vassert(len(c) == 6)
	m := vspec_polymod(append(append(vspec_hrp(p[:]), g...), 0, 0, 0, 0, 0, 0)) ^ 1
	for i := 0; i < 6; i++ {
		vassert(c[i] == int8(m>>uint(5*(5-i))&31))
	}
	vassert(verifyChecksum(string(p[:]), append(append([]int8{}, g...), c...)))
	vreach()
}

// bit j (most significant first) of a byte string
func vspec_bit(x []byte, j int) byte {
	if j >= 8*len(x) {
		return 0
	}
	return x[j/8] >> uint(7-j%8) & 1
}

func vspec_group5(x []byte, i int) int8 {
	var g byte
	for k := 0; k < 5; k++ {
		g = g<<1 | vspec_bit(x, 5*i+k)
	}
	return int8(g)
}

func vspec_int8(x []byte) []int8 {
	r := make([]int8, len(x))
	for i := 0; i < len(x); i++ {
		r[i] = int8(x[i])
	}
	return r
}

// regrouping a 20- or 32-byte payload into groups of five bits
//vp:opt summ=-*,lin
func vlemma_b32_extend20(x [20]byte) {
	g := extendPayload(vspec_int8(x[:]))
	vassert(len(g) == 32)
	for i := 0; i < 32; i++ {
		vassert(g[i] == vspec_group5(x[:], i))
	}
	vreach()
}

//vp:opt summ=-*,lin
func vlemma_b32_extend32(x [32]byte) {
	g := extendPayload(vspec_int8(x[:]))
	vassert(len(g) == 52)
	for i := 0; i < 52; i++ {
		vassert(g[i] == vspec_group5(x[:], i))
	}
	vreach()
}

// regrouping back: of n groups the first floor(5n/8) bytes of the last bits
//vp:opt summ=-*,lin
func vlemma_b32_unextend32(x [32]byte) {
	g := vspec_groups(x[:])
	b := unecxtendPayload(g)
	vassert(len(b) == 20)
	for i := 0; i < 20; i++ {
		for k := 0; k < 8; k++ {
			j := 8*i + k
			vassert(byte(b[i])>>uint(7-k)&1 == x[j/5]>>uint(4-j%5)&1)
		}
	}
	vreach()
}

//vp:opt summ=-*,lin
func vlemma_b32_unextend33(v byte, x [32]byte) {
	g := append([]int8{int8(v & 31)}, vspec_groups(x[:])...)
	b := unecxtendPayload(g)
	vassert(len(b) == 20)
	for i := 0; i < 20; i++ {
		for k := 0; k < 8; k++ {
			j := 8*i + k
			vassert(byte(b[i])>>uint(7-k)&1 == x[j/5]>>uint(4-j%5)&1)
		}
	}
	vreach()
}
