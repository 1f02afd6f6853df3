//vp:packages addressEncoder
//vp:prop P04
package PKG

import "hash/crc32"

// Monero: 8-byte blocks in 11 digits, 5-byte rest in 7; what was encoded comes back, a damaged checksum or prefix does not
//vp:opt search=random-keys
func vlemma_xmr_rt(hash []byte, k int, flip int) {
	ts := []AddressType{XMR_mainnetPublicAddress, XMR_mainnetPublicSubAddress, XMR_mainnetPublicIntegratedAddress, XMR_testnetPublicAddress, XMR_testnetPublicSubAddress, XMR_testnetPublicIntegratedAddress}
	vassume(k >= 0 && k < len(ts) && len(hash) == ts[k].HashLen && flip >= 0)
	x := vcopy(hash)
	a := AddressEncode(hash, ts[k])
	vassert(len(a) == 95 && ts[k].HashLen == 64 || len(a) == 106 && ts[k].HashLen == 72)
	r, err := AddressDecode(a, ts[k])
	vassert(err == nil)
	veqb(r, x)
	_, err = AddressDecode(a, ts[(k+1)%6])
	vassert(err != nil)
	b := []byte(a)
	c := BTCAlphabet[flip%58]
	if p := flip % len(b); b[p] != c {
		b[p] = c
		r, err = AddressDecode(string(b), ts[k])
		vassert(err != nil || string(r) != string(x))
	}
}

func vgen_xmr_rt(g *vrand) ([]byte, int, int) {
	k := g.n(6)
	n := 64
	if k == 2 || k == 5 {
		n = 72
	}
	h := g.bytes(n)
	for i := range h {
		if g.p(10) {
			h[i] = 0
		}
	}
	return h, k, g.n(1 << 20)
}

// any string of any length: an error or a payload, never a crash
//vp:opt search=strings
func vlemma_xmr_any(a string, k int) {
	t := XMR_mainnetPublicAddress
	if k == 1 {
		t = XMR_mainnetPublicIntegratedAddress
	}
	r, err := AddressDecode(a, t)
	vassert(err != nil || len(r) == t.HashLen)
}

func vgen_xmr_any(g *vrand) (string, int) {
	b := []byte(AddressEncode(g.bytes(64), XMR_mainnetPublicAddress))
	for i := 0; i < 2; i++ {
		b = g.mutb(b)
	}
	return string(b), g.n(2)
}

//vp:opt search=byte-strings
func vlemma_crc32(d []byte) {
	c := crc32.ChecksumIEEE(d)
	veqb(CRC32(d), []byte{byte(c >> 24), byte(c >> 16), byte(c >> 8), byte(c)})
}
