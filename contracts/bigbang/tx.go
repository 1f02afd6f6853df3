//vp:packages bigbangTransaction
//vp:prop P25
package PKG

import (
	"encoding/base32"
	"encoding/hex"
	"time"

	"github.com/blocktree/go-owcrypt"
)

func vsigned(pri, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(owcrypt.Point_mulBaseG(pri, curve), nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vverified(pub, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

// the checksum of an address, bit by bit
func vspec_crc(b []byte) uint32 {
	c := uint32(0)
	for i := 0; i < len(b); i++ {
		c = vspec_step(c, b[i])
	}
	return c
}

func vspec_step(c uint32, b byte) uint32 {
	c ^= uint32(b) << 16
	for j := 0; j < 8; j++ {
		c = c<<1 ^ (c>>23&1)*0x1864cfb
	}
	return c & 0xffffff
}

// the table: the checksum of every single byte
//vp:opt summ=-*
func vlemma_table(a byte) {
	vassert(crc24q([]byte{a}) == vspec_step(0, a))
	vreach()
}

// a step of the definition is a look-up in that table
//vp:opt summ=-*
func vlemma_step(c uint32, b byte) {
	vassume(c < 1<<24)
	vassert(vspec_step(c, b) == (c<<8^vspec_step(0, b^byte(c>>16)))&0xffffff)
	vreach()
}

// one byte more is one such step more
//vp:opt summ=-* bounded=messages-of-at-most-four-bytes
func vlemma_crcstep(m []byte, b byte) {
	vassume(len(m) <= 3)
	c := crc24q(m)
	x := crc24q([]byte{b ^ byte(c>>16)})
	n := append(vcopy(m), b)
	vassert(crc24q(n) == (c<<8^x)&0xffffff)
	vreach()
}

//vp:opt search=crc
func vlemma_crc(m []byte) {
	vassert(crc24q(m) == vspec_crc(m))
	vreach()
}

// an address names exactly one public key and is accepted only with its checksum
//vp:opt search=base32
func vlemma_address(s string) {
	r, err := addressDecode(s)
	if err != nil {
		vassert(r == nil)
		return
	}
	vassert(len(r) == 33 && r[0] == 1)
	c := vspec_crc(r[1:])
	t := "1" + base32.NewEncoding("0123456789abcdefghjkmnpqrstvwxyz").EncodeToString(append(vcopy(r[1:]), byte(c>>16), byte(c>>8), byte(c)))
	o := []byte{}
	for i := 0; i < len(s); i++ {
		if s[i] != '\r' && s[i] != '\n' {
			o = append(o, s[i])
		}
	}
	veqs(string(o), t)
	vreach()
}

//vp:opt search=base32
func vlemma_own(k []byte) {
	vassume(len(k) == 32)
	c := vspec_crc(k)
	r, err := addressDecode("1" + base32.NewEncoding("0123456789abcdefghjkmnpqrstvwxyz").EncodeToString(append(vcopy(k), byte(c>>16), byte(c>>8), byte(c))))
	vassert(err == nil)
	veqb(r, append([]byte{1}, k...))
}

func vspec_rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := 0; i < len(b); i++ {
		r[i] = b[len(b)-1-i]
	}
	return r
}

// an input: the id in wire order and the output number
func vlemma_in(id string, v byte) {
	t, err := NewTxIn(id, v)
	b, e := hex.DecodeString(id)
	if e != nil || len(b) != 32 {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(t.ToBytes(), append(vspec_rev(b), v))
	vreach()
}

func vspec_le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
func vspec_le64(v uint64) []byte {
	return append(vspec_le32(uint32(v)), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56))
}

// every requested value in its field; malformed, empty and zero requests are refused
//vp:opt opaque=NewTxIn,addressDecode
func vlemma_new(ver, ty uint16, ts, lock uint32, anchor string, in []Vin, to string, amount, fee uint64, data string, i int) {
	t, err := NewTxStruct(ver, ty, ts, lock, anchor, in, to, amount, fee, data)
	a, e := hex.DecodeString(anchor)
	p, e2 := addressDecode(to)
	if e != nil || len(a) != 32 || e2 != nil || len(in) == 0 || len(in) > 252 || amount == 0 || fee == 0 || len(data) > 252 {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	if err != nil {
		vassert(t == nil)
		return
	}
	veqb(t.Version, []byte{byte(ver), byte(ver >> 8)})
	veqb(t.Type, []byte{byte(ty), byte(ty >> 8)})
	veqb(t.Time, vspec_le32(ts))
	veqb(t.LockUntil, vspec_le32(lock))
	veqb(t.Anchor, vspec_rev(a))
	veqb(t.To, p)
	veqb(t.Amount, vspec_le64(amount))
	veqb(t.Fee, vspec_le64(fee))
	veqb(t.Data, append([]byte{byte(len(data))}, data...))
	vassert(len(t.Vins) == len(in))
	if i >= 0 && i < len(in) {
		x, e := NewTxIn(in[i].TxID, in[i].Vout)
		vassert(e == nil && t.Vins[i].Vout == x.Vout)
		veqb(t.Vins[i].TxID, x.TxID)
	}
	vreach()
}

func vspec_present(t TxStruct) {
	for i := 0; i < len(t.Vins); i++ {
		vassume(t.Vins[i] != nil)
	}
}

// the transaction is its fields in order, every input behind their number, and its hash is of exactly these bytes
//vp:opt opaque=TxIn).ToBytes
func vlemma_bytes(t TxStruct) {
	vspec_present(t)
	w := append([]byte{}, t.Version...)
	w = append(w, t.Type...)
	w = append(w, t.Time...)
	w = append(w, t.LockUntil...)
	w = append(w, t.Anchor...)
	w = append(w, byte(len(t.Vins)))
	for i := 0; i < len(t.Vins); i++ {
		w = append(w, t.Vins[i].ToBytes()...)
	}
	w = append(w, t.To...)
	w = append(w, t.Amount...)
	w = append(w, t.Fee...)
	w = append(w, t.Data...)
	veqb(t.ToBytes(), w)
	veqb(t.GetHash(), owcrypt.Hash(w, 32, owcrypt.HASH_ALG_BLAKE2B))
	vreach()
}

// a created transaction is a token transfer of version 1 made now
//vp:opt search=clock
func vlemma_create(lock uint32, anchor string, in []Vin, to string, amount, fee uint64, data string) {
	t0 := uint32(time.Now().Unix())
	s, h, err := CreateEmptyTransactionAndHash(lock, anchor, in, to, amount, fee, data)
	t1 := uint32(time.Now().Unix())
	ok := false
	for t := t0; t <= t1; t++ {
		x, e := NewTxStruct(1, 0, t, lock, anchor, in, to, amount, fee, data)
		vassert((e == nil) == (err == nil))
		if e != nil {
			vassert(s == "" && h == "")
			return
		}
		b := x.ToBytes()
		ok = ok || s == hex.EncodeToString(b) && h == hex.EncodeToString(owcrypt.Hash(b, 32, owcrypt.HASH_ALG_BLAKE2B))
	}
	vassert(ok)
	vreach()
}

// exactly the given hash is signed with the given key
func vlemma_sign(h string, pri []byte) {
	p := vcopy(pri)
	s, err := SignTransactionHash(h, pri)
	m, e := hex.DecodeString(h)
	if e != nil || len(m) != 32 || len(pri) != 32 {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	if err == nil {
		b, e := hex.DecodeString(s)
		vassert(e == nil)
		vassert(p[0]&7 != 0 || p[31]&0xc0 != 0x40 || vsigned(p, m, b, owcrypt.ECC_CURVE_ED25519))
		vreach()
	}
}

// a transaction is combined exactly with a signature that verifies over its hash under the given key
func vlemma_combine(s, sig string, pub []byte) {
	k := vcopy(pub)
	ok, r := VerifyAndCombineTransaction(s, sig, pub)
	b, e := hex.DecodeString(s)
	g, e2 := hex.DecodeString(sig)
	if e != nil || len(b) == 0 || e2 != nil || len(g) != 64 || len(k) != 32 || !vverified(k, owcrypt.Hash(b, 32, owcrypt.HASH_ALG_BLAKE2B), g, owcrypt.ECC_CURVE_ED25519) {
		vassert(!ok && r == "")
		vreach()
		return
	}
	vassert(ok)
	veqs(r, hex.EncodeToString(append(append(b, 64), g...)))
	vreach()
}

func vmk_hex(g *vrand, n int) string {
	b := g.bytes(n)
	if g.p(4) {
		b = g.mutb(b)
	}
	s := vhexs(b)
	if g.p(4) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}

func vgen_address(g *vrand) string {
	k := g.bytes(32)
	c := vspec_crc(k)
	k = append(k, byte(c>>16), byte(c>>8), byte(c))
	if g.p(10) {
		k = g.mutb(k)
	}
	s := "1" + base32.NewEncoding("0123456789abcdefghjkmnpqrstvwxyz").EncodeToString(k)
	if g.p(10) {
		s = string(g.mutb([]byte(s)))
	}
	if g.p(3) {
		s = s[:g.n(3)]
	}
	return s
}

func vgen_own(g *vrand) []byte { return g.bytes(32) }
func vgen_crc(g *vrand) []byte { return g.bytes(g.n(40)) }

func vmk_ins(g *vrand) (r []Vin) {
	n := g.n(5)
	if g.p(4) {
		n = 250 + g.n(10)
	}
	for ; n > 0; n-- {
		r = append(r, Vin{vhexs(g.bytes(32)), byte(g.n(256))})
	}
	if g.p(5) && len(r) > 0 {
		r[g.n(len(r))].TxID = vmk_hex(g, 32)
	}
	return
}

func vmk_data(g *vrand) string {
	n := g.n(20)
	if g.p(10) {
		n = 245 + g.n(20)
	}
	return string(g.bytes(n))
}

func vmk_amount(g *vrand) uint64 {
	if g.p(4) {
		return 0
	}
	return g.u64() >> uint(g.n(64))
}

func vgen_in(g *vrand) (string, byte) { return vmk_hex(g, 32), byte(g.n(256)) }
func vgen_new(g *vrand) (uint16, uint16, uint32, uint32, string, []Vin, string, uint64, uint64, string, int) {
	return uint16(g.n(65536)), uint16(g.n(65536)), uint32(g.u64()), uint32(g.u64()), vmk_hex(g, 32), vmk_ins(g), vgen_address(g), vmk_amount(g), vmk_amount(g), vmk_data(g), g.n(4)
}
func vgen_create(g *vrand) (uint32, string, []Vin, string, uint64, uint64, string) {
	return uint32(g.u64()), vmk_hex(g, 32), vmk_ins(g), vgen_address(g), vmk_amount(g), vmk_amount(g), vmk_data(g)
}
func vgen_bytes(g *vrand) TxStruct {
	t, err := NewTxStruct(uint16(g.n(65536)), uint16(g.n(65536)), uint32(g.u64()), uint32(g.u64()), vmk_hex(g, 32), vmk_ins(g), vgen_address(g), vmk_amount(g), vmk_amount(g), vmk_data(g))
	vassume(err == nil)
	return *t
}

func vmk_key(g *vrand) []byte {
	k := g.bytes(32)
	k[0] &= 248
	k[31] = k[31]&63 | 64
	return k
}

func vgen_sign(g *vrand) (string, []byte) { return vmk_hex(g, 32), vmk_key(g) }

func vgen_combine(g *vrand) (string, string, []byte) {
	b, k := g.bytes(1+g.n(50)), vmk_key(g)
	s, err := SignTransactionHash(vhexs(owcrypt.Hash(b, 32, owcrypt.HASH_ALG_BLAKE2B)), k)
	vassume(err == nil)
	p := owcrypt.Point_mulBaseG(k, owcrypt.ECC_CURVE_ED25519)
	if g.p(10) {
		s = string(g.mutb([]byte(s)))
	}
	if g.p(5) {
		b = g.mutb(b)
	}
	if g.p(5) {
		p = g.mutb(p)
	}
	return vhexs(b), s, p
}
