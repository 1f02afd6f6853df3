//vp:packages aliencoinTransaction bitcoincashTransaction bitcoinsvTransaction btcLikeTxDriver btcTransaction cxcTransaction elastosTransaction fiiiTransaction filenetTransaction hcTransaction hypercashTransaction omniTransaction ontologyTransaction owkeychain vergeTransaction virtualeconomyTransaction vollarTransaction waykichainTransaction zencashTransaction
//vp:prop P02
package PKG

const vspec_alpha = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// leading zero bytes become '1's, the rest are the base-58 digits of the big-endian number, most significant first
//vp:opt summ=-* bounded=two-bytes
func vlemma_b58_enc2(x [2]byte) {
	s := Encode(x[:], BitcoinAlphabet)
	v := uint32(x[0])<<8 | uint32(x[1])
	r := []byte{}
	if x[0] == 0 {
		r = append(r, '1')
		if x[1] == 0 {
			r = append(r, '1')
		}
	}
	if v >= 58*58 {
		r = append(r, vspec_alpha[v/(58*58)])
	}
	if v >= 58 {
		r = append(r, vspec_alpha[v/58%58])
	}
	if v > 0 {
		r = append(r, vspec_alpha[v%58])
	}
	veqs(s, string(r))
	vreach()
}

func vspec_b58(x []byte) string {
	z := 0
	for z < len(x) && x[z] == 0 {
		z++
	}
	n := append([]byte{}, x[z:]...)
	d := []byte{}
	for len(n) > 0 {
		r := 0
		q := []byte{}
		for _, b := range n {
			r = r<<8 | int(b)
			if k := r / 58; k > 0 || len(q) > 0 {
				q = append(q, byte(k))
			}
			r %= 58
		}
		d = append([]byte{vspec_alpha[r]}, d...)
		n = q
	}
	for i := 0; i < z; i++ {
		d = append([]byte{'1'}, d...)
	}
	return string(d)
}

// reference digits and round trip on long inputs
//vp:opt search=byte-strings-up-to-130-bytes
func vlemma_b58_ref(x []byte) {
	c := vcopy(x)
	s := Encode(x, BitcoinAlphabet)
	veqs(s, vspec_b58(x))
	d, err := Decode(s, BitcoinAlphabet)
	vassert(err == nil)
	veqb(d, x)
	veqb(x, c)
}

func vspec_inalpha(s string) bool {
	for _, c := range s {
		k := false
		for _, a := range vspec_alpha {
			k = k || a == c
		}
		if !k {
			return false
		}
	}
	return true
}

// any string: refused exactly when a character is outside the alphabet, otherwise re-encodes to itself
//vp:opt search=strings-up-to-180-characters
func vlemma_b58_any(s string) {
	d, err := Decode(s, BitcoinAlphabet)
	if !vspec_inalpha(s) {
		vassert(err != nil && d == nil)
		return
	}
	vassert(err == nil)
	veqs(vspec_b58(d), s)
}

func vgen_b58_ref(g *vrand) []byte {
	b := g.bytes(g.n(130))
	for i := 0; i < len(b) && g.p(40); i++ {
		b[i] = 0
	}
	if g.p(20) {
		for i := range b {
			b[i] = 255
		}
	}
	if g.p(10) && len(b) > 2 {
		for i := range b[1:] {
			b[1+i] = 0
		}
	}
	return b
}

func vgen_b58_any(g *vrand) string {
	n := g.n(180)
	b := make([]byte, n)
	for i := range b {
		b[i] = vspec_alpha[g.n(58)]
	}
	if g.p(30) {
		for i := range b {
			b[i] = 'z'
		}
	}
	for i := 0; i < len(b) && g.p(40); i++ {
		b[i] = '1'
	}
	if g.p(30) && n > 0 {
		b[g.n(n)] = byte(g.n(256))
	}
	if g.p(20) && n > 0 {
		b[g.n(n)] = "0OIl "[g.n(5)]
	}
	if g.p(5) {
		return string(b) + "\u4e2d"
	}
	return string(b)
}

// two characters, all byte values
//vp:opt summ=-* bounded=two-characters
func vlemma_b58_dec2(a, b byte) {
	vassume(a < 128 && b < 128)
	d, err := Decode(string([]byte{a, b}), BitcoinAlphabet)
	x, y := vspec_digit(a), vspec_digit(b)
	if x < 0 || y < 0 {
		vassert(err != nil && d == nil)
		vreach()
		return
	}
	vassert(err == nil)
	v := x*58 + y
	r := []byte{}
	if x == 0 {
		r = append(r, 0)
		if y == 0 {
			r = append(r, 0)
		}
	}
	if v >= 256 {
		r = append(r, byte(v>>8))
	}
	if v > 0 {
		r = append(r, byte(v))
	}
	veqb(d, r)
	vreach()
}

func vspec_digit(c byte) int {
	if c >= '1' && c <= '9' {
		return int(c - '1')
	}
	if c >= 'A' && c <= 'H' {
		return int(c-'A') + 9
	}
	if c >= 'J' && c <= 'N' {
		return int(c-'J') + 17
	}
	if c >= 'P' && c <= 'Z' {
		return int(c-'P') + 22
	}
	if c >= 'a' && c <= 'k' {
		return int(c-'a') + 33
	}
	if c >= 'm' && c <= 'z' {
		return int(c-'m') + 44
	}
	return -1
}
