//vp:packages btcTransaction hcTransaction zencashTransaction cxcTransaction omniTransaction btcLikeTxDriver
//vp:prop P03
package PKG

// version group 0, the payload's groups, the check groups, in the alphabet behind prefix and separator
//vp:opt summ=-*,lin
func vlemma_b32_enc20(p [2]byte, x [20]byte) {
	alpha := "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	s := Bech32Encode(string(p[:]), alpha, x[:])
	g := []int8{0}
	for i := 0; i < 32; i++ {
		g = append(g, vspec_group5(x[:], i))
	}
	m := vspec_polymod(append(append(vspec_hrp(p[:]), g...), 0, 0, 0, 0, 0, 0)) ^ 1
	vassert(len(s) == 42)
	vassert(s[0] == p[0] && s[1] == p[1] && s[2] == '1')
	for i := 0; i < 33; i++ {
		vassert(s[3+i] == alpha[g[i]])
	}
	for i := 0; i < 6; i++ {
		vassert(s[36+i] == alpha[m>>uint(5*(5-i))&31])
	}
	vreach()
}

//vp:opt summ=-*,lin
func vlemma_b32_enc32(p [2]byte, x [32]byte) {
	alpha := "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	s := Bech32Encode(string(p[:]), alpha, x[:])
	g := []int8{0}
	for i := 0; i < 52; i++ {
		g = append(g, vspec_group5(x[:], i))
	}
	m := vspec_polymod(append(append(vspec_hrp(p[:]), g...), 0, 0, 0, 0, 0, 0)) ^ 1
	vassert(len(s) == 62)
	vassert(s[0] == p[0] && s[1] == p[1] && s[2] == '1')
	for i := 0; i < 53; i++ {
		vassert(s[3+i] == alpha[g[i]])
	}
	for i := 0; i < 6; i++ {
		vassert(s[56+i] == alpha[m>>uint(5*(5-i))&31])
	}
	vreach()
}

// every string of an address' length behind the prefix: refused, or valid characters of one case, valid check groups and exactly the payload's bits
//vp:opt summ=-*,lin,merge budget=300
func vlemma_b32_dec20(x [39]byte) {
	r, err := Bech32Decode("bc1" + string(x[:]))
	if err != nil {
		vassert(r == nil)
		vreach()
		return
	}
	g := make([]int8, 39)
	for k := 0; k < 39; k++ {
		vassert(x[k] < 128)
		vassert(x[k]-'A' > 25)
		g[k] = CHARSET_REV[x[k]]
		vassert(uint8(g[k]) < 32)
	}
	vassert(vspec_polymod(append([]int8{3, 3, 0, 2, 3}, g...)) == 1)
	vassert(len(r) == 20)
	for k := 0; k < 20; k++ {
		for b := 0; b < 8; b++ {
			q := 8*k + b
			vassert(r[k]>>uint(7-b)&1 == byte(g[1+q/5])>>uint(4-q%5)&1)
		}
	}
	vreach()
}

// every string of an address' length behind the prefix: refused, or valid characters of one case, valid check groups and exactly the payload's bits
//vp:opt summ=-*,lin,merge budget=300 except=btcLikeTxDriver
func vlemma_b32_dec32(x [59]byte) {
	r, err := Bech32Decode("bc1" + string(x[:]))
	if err != nil {
		vassert(r == nil)
		vreach()
		return
	}
	g := make([]int8, 59)
	for k := 0; k < 59; k++ {
		vassert(x[k] < 128)
		vassert(x[k]-'A' > 25)
		g[k] = CHARSET_REV[x[k]]
		vassert(uint8(g[k]) < 32)
	}
	vassert(vspec_polymod(append([]int8{3, 3, 0, 2, 3}, g...)) == 1)
	vassert(len(r) == 32)
	for k := 0; k < 32; k++ {
		for b := 0; b < 8; b++ {
			q := 8*k + b
			vassert(r[k]>>uint(7-b)&1 == byte(g[1+q/5])>>uint(4-q%5)&1)
		}
	}
	vreach()
}

// any string: an answer or an error, never a crash
//vp:opt opaque=polyMod,unecxtendPayload
func vlemma_b32_total(s string) {
	r, err := Bech32Decode(s)
	if err != nil {
		vassert(r == nil)
	}
	vreach()
}


// any payload: never a crash, text behind prefix and separator
//vp:opt opaque=polyMod,vopq_shl5 contracts=byteShl5:vcontract_shl5
func vlemma_b32_enc_total(p string, x []byte) {
	vassume(len(x) < 1<<16)
	s := Bech32Encode(p, "qpzry9x8gf2tvdw0s3jn54khce6mua7l", x)
	vassert(len(s) > len(p))
	vreach()
}

// what was encoded is accepted and comes back
//vp:opt summ=-*,lin,merge budget=300
func vlemma_b32_round20(x [20]byte) {
	r, err := Bech32Decode(Bech32Encode("bc", BTCBech32Alphabet, x[:]))
	vassert(err == nil)
	vassert(len(r) == 20)
	for k := 0; k < 20; k++ {
		vassert(r[k] == x[k])
	}
	vreach()
}

//vp:opt summ=-*,lin,merge budget=300 except=btcLikeTxDriver
func vlemma_b32_round32(x [32]byte) {
	r, err := Bech32Decode(Bech32Encode("bc", BTCBech32Alphabet, x[:]))
	vassert(err == nil)
	vassert(len(r) == 32)
	for k := 0; k < 32; k++ {
		vassert(r[k] == x[k])
	}
	vreach()
}

func vgen_b32_dec20(g *vrand) (x [39]byte) {
	copy(x[:], vmk_bech(g, []int8{3, 3, 0, 2, 3}, 39, 1, false))
	return
}

//vp:opt except=btcLikeTxDriver
func vgen_b32_dec32(g *vrand) (x [59]byte) {
	copy(x[:], vmk_bech(g, []int8{3, 3, 0, 2, 3}, 59, 1, false))
	return
}
