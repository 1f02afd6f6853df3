//vp:packages waykichainTransaction
//vp:prop P21
package PKG

import (
	"encoding/hex"
	"strconv"
	"strings"

	"github.com/blocktree/go-owcrypt"
)

func vsigned(pri, msg, sig []byte, curve uint32) bool {
	pub, r := owcrypt.GenPubkey(pri, curve)
	return r == owcrypt.SUCCESS && owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vverified(pub, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

// the chain's reading of a number: seven bits a byte, most significant first, each continued byte adding one
func vspec_readvarint(b []byte) (n uint64, used int) {
	for used < len(b) {
		c := b[used]
		used++
		n = n<<7 | uint64(c&0x7f)
		if c&0x80 == 0 {
			return
		}
		n++
	}
	return n, -1
}

// a number is written so that the chain reads it back, and nothing follows it
//vp:opt summ=-*
func vlemma_varint(v int64) {
	vassume(v >= 0)
	b := int64ToUvarint(v)
	vassert(len(b) >= 1 && len(b) <= 9)
	n, used := vspec_readvarint(b)
	vassert(used == len(b) && n == uint64(v))
	vreach()
}

func vopq_uv(v int64) []byte { return int64ToUvarint(v) }

// proved by vlemma_varint for the length of the numbers that are not negative
func vcontract_uv(v int64) []byte {
	if vlit(v) && v == 1 {
		return []byte{1}
	}
	b := vopq_uv(v)
	vassume(v < 0 || len(b) >= 1 && len(b) <= 9)

	return b
}

func vspec_id(a, b string) (r []byte, ok bool) {
	x, e := strconv.ParseInt(strings.TrimSpace(a), 10, 64)
	if e != nil {
		return nil, false
	}
	y, e := strconv.ParseInt(strings.TrimSpace(b), 10, 64)
	if e != nil {
		return nil, false
	}
	vassume(x >= 0 && y >= 0) // texts of digits: vlemma_regid
	r = append(r, int64ToUvarint(x)...)
	r = append(r, int64ToUvarint(y)...)
	return append([]byte{byte(len(r))}, r...), true
}

// what is handed out: the transaction, and the hash of it with its first two bytes, type and version, exchanged
func vspec_out(s, h string, err error, t byte, body []byte) {
	vassert(err == nil)
	veqs(s, hex.EncodeToString(append([]byte{t, 1}, body...)))
	veqs(h, hex.EncodeToString(owcrypt.Hash(append([]byte{1, t}, body...), 0, owcrypt.HASH_ALG_DOUBLE_SHA256)))
	vreach()
}

func vspec_refused(s, h string, err error) {
	vassert(err != nil && s == "" && h == "")
	vreach()
}

//vp:opt opaque=isRegIdStr,GetProgramHashFromAddress,vopq_uv contracts=int64ToUvarint:+vcontract_uv
func vlemma_common(a, b, to, app string, amount, fee, height int64) {
	vatom(a, "-")
	vatom(b, "-")
	s, h, err := CreateEmptyRawTransactionAndHash(a+"-"+b, to, app, amount, fee, height, 3)
	p, e := GetProgramHashFromAddress(to)
	id, ok := vspec_id(a, b)
	if amount < 0 || fee < 0 || height < 0 || !isRegIdStr(a+"-"+b) || !ok || e != nil {
		vspec_refused(s, h, err)
		return
	}
	w := int64ToUvarint(height)
	w = append(w, id...)
	w = append(w, byte(len(p)))
	w = append(w, p...)
	w = append(w, int64ToUvarint(fee)...)
	w = append(w, int64ToUvarint(amount)...)
	vspec_out(s, h, err, 3, append(w, 0))
}

//vp:opt opaque=vopq_uv contracts=int64ToUvarint:+vcontract_uv
func vlemma_register(key, to, app string, amount, fee, height int64) {
	s, h, err := CreateEmptyRawTransactionAndHash(key, to, app, amount, fee, height, 2)
	k, e := hex.DecodeString(key)
	if fee < 0 || height < 0 || e != nil || len(k) != 33 {
		vspec_refused(s, h, err)
		return
	}
	w := int64ToUvarint(height)
	w = append(w, 33)
	w = append(w, k...)
	w = append(w, 0)
	vspec_out(s, h, err, 2, append(w, int64ToUvarint(fee)...))
}

//vp:opt opaque=isRegIdStr,vopq_uv contracts=int64ToUvarint:+vcontract_uv
func vlemma_contract(a, b, code, c, d string, amount, fee, height int64) {
	vatom(a, "-")
	vatom(b, "-")
	vatom(c, "-")
	vatom(d, "-")
	s, h, err := CreateEmptyRawTransactionAndHash(a+"-"+b, code, c+"-"+d, amount, fee, height, 4)
	k, e := hex.DecodeString(code)
	id, ok := vspec_id(a, b)
	app, ok2 := vspec_id(c, d)
	if amount < 0 || fee < 0 || height < 0 || !isRegIdStr(a+"-"+b) || !ok || !isRegIdStr(c+"-"+d) || !ok2 || e != nil || len(k) > 252 {
		vspec_refused(s, h, err)
		return
	}
	w := int64ToUvarint(height)
	w = append(w, id...)
	w = append(w, app...)
	w = append(w, int64ToUvarint(fee)...)
	w = append(w, int64ToUvarint(amount)...)
	w = append(w, byte(len(k)))
	vspec_out(s, h, err, 4, append(w, k...))
}

//vp:opt opaque=isRegIdStr,GetProgramHashFromAddress,vopq_uv contracts=int64ToUvarint:+vcontract_uv
func vlemma_coin(a, b, to, coin string, amount, fee, height int64) {
	vatom(a, "-")
	vatom(b, "-")
	s, h, err := CreateEmptyRawTransactionAndHash(a+"-"+b, to, coin, amount, fee, height, 11)
	p, e := GetProgramHashFromAddress(to)
	id, ok := vspec_id(a, b)
	if amount < 0 || fee < 0 || height < 0 || !isRegIdStr(a+"-"+b) || !ok || e != nil || coin == "" || len(coin) > 252 {
		vspec_refused(s, h, err)
		return
	}
	w := int64ToUvarint(height)
	w = append(w, id...)
	w = append(w, "\x04WICC"...)
	w = append(w, int64ToUvarint(fee)...)
	w = append(w, 1, byte(len(p)))
	w = append(w, p...)
	w = append(w, byte(len(coin)))
	w = append(w, coin...)
	w = append(w, int64ToUvarint(amount)...)
	vspec_out(s, h, err, 11, append(w, 0))
}

// no other type of transaction is made
func vlemma_type(from, to, app string, amount, fee, height int64, t byte) {
	vassume(t != 2 && t != 3 && t != 4 && t != 11)
	s, h, err := CreateEmptyRawTransactionAndHash(from, to, app, amount, fee, height, t)
	vspec_refused(s, h, err)
}

func vspec_regid(s string) bool {
	i := 0
	space := func(c byte) bool { return c == ' ' || c >= '\t' && c <= '\r' && c != '\v' }
	for i < len(s) && space(s[i]) {
		i++
	}
	for n := 0; n < 2; n++ {
		j := i
		for i < len(s) && s[i] >= '0' && s[i] <= '9' {
			i++
		}
		if i == j {
			return false
		}
		if n == 0 {
			if i == len(s) || s[i] != '-' {
				return false
			}
			i++
		}
	}
	for i < len(s) && space(s[i]) {
		i++
	}
	return i == len(s)
}

// a register ID is two runs of digits around one hyphen, with nothing but space around them
//vp:opt search=regexp
func vlemma_regid(s string) {
	vassert(isRegIdStr(s) == vspec_regid(s))
	vreach()
}

// any text offered for combining is refused or hashed as it was when it was made
func vlemma_hash(s string) {
	h, err := getHashFromEmptyRawTrans(s)
	b, e := hex.DecodeString(s)
	if e != nil || len(b) < 2 || b[0] != 2 && b[0] != 3 && b[0] != 4 && b[0] != 11 || b[1] != 1 {
		vassert(err != nil && h == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(h, owcrypt.Hash(append([]byte{b[1], b[0]}, b[2:]...), 0, owcrypt.HASH_ALG_DOUBLE_SHA256))
	vreach()
}

// exactly the given hash is signed with the given key
func vlemma_sign(h string, pri []byte) {
	p := vcopy(pri)
	s, err := SignRawTransaction(h, pri)
	m, e := hex.DecodeString(h)
	if e != nil {
		vassert(err != nil && s == nil)
		vreach()
		return
	}
	if err == nil {
		vassert(len(s) == 64 && vsigned(p, m, s, owcrypt.ECC_CURVE_SECP256K1))
		vreach()
	}
}

func vopq_sig(p, s []byte) []byte { return SigPub{p, s}.ToBytes() }

// P06: the signature's DER form
func vcontract_sig(sp SigPub) []byte {
	vassert(len(sp.Signature) == 64)
	return vopq_sig(sp.PublicKey, sp.Signature)
}

// a transaction is combined exactly with a signature that verifies over its hash under the given key, and is then followed by the signature
//vp:opt opaque=vopq_sig,getHashFromEmptyRawTrans contracts=SigPub).ToBytes:vcontract_sig
func vlemma_combine(s string, p, g []byte) {
	q, i := vcopy(p), vcopy(g)
	ok, r := VerifyAndCombineRawTransaction(s, SigPub{p, g})
	h, e := getHashFromEmptyRawTrans(s)
	k := owcrypt.PointDecompress(q, owcrypt.ECC_CURVE_SECP256K1)
	if e != nil || len(k) == 0 || !vverified(k[1:], h, i, owcrypt.ECC_CURVE_SECP256K1) {
		vassert(!ok && r == "")
		vreach()
		return
	}
	vassert(ok)
	veqs(r, s+hex.EncodeToString(vopq_sig(q, i)))
	vreach()
}

func vgen_varint(g *vrand) int64 {
	if g.p(30) {
		return int64(uint64(1)<<uint(g.n(63)) + uint64(g.n(4)) - 2)
	}
	return int64(g.u64() >> uint(1+g.n(63)))
}

func vmk_num(g *vrand) int64 {
	v := vgen_varint(g)
	if g.p(4) {
		v = -v
	}
	return v
}

func vmk_id(g *vrand) (string, string) {
	a, b := strconv.FormatInt(vgen_varint(g), 10), strconv.Itoa(g.n(300))
	if g.p(10) {
		a = " " + a
	}
	if g.p(10) {
		b += "\n"
	}
	if g.p(6) {
		a += "7777777777777777777"
	}
	if g.p(6) {
		b = strings.Replace(string(g.mutb([]byte(b))), "-", "0", -1)
	}
	return a, b
}

func vmk_hex(g *vrand, n int) string {
	b := g.bytes(n)
	if g.p(5) {
		b = g.mutb(b)
	}
	s := vhexs(b)
	if g.p(4) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}

func vmk_to(g *vrand) string {
	d := append([]byte{AddressPrefix}, g.bytes(20)...)
	d = append(vcopy(d), owcrypt.Hash(d, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]...)
	if g.p(5) {
		d = g.mutb(d)
	}
	return Encode(d, BitcoinAlphabet)
}

func vgen_common(g *vrand) (string, string, string, string, int64, int64, int64) {
	a, b := vmk_id(g)
	return a, b, vmk_to(g), g.str(), vmk_num(g), vmk_num(g), vmk_num(g)
}

func vgen_register(g *vrand) (string, string, string, int64, int64, int64) {
	return vmk_hex(g, 33), g.str(), g.str(), vmk_num(g), vmk_num(g), vmk_num(g)
}

func vgen_contract(g *vrand) (string, string, string, string, string, int64, int64, int64) {
	a, b := vmk_id(g)
	c, d := vmk_id(g)
	n := g.n(20)
	if g.p(10) {
		n = 250 + g.n(10)
	}
	return a, b, vmk_hex(g, n), c, d, vmk_num(g), vmk_num(g), vmk_num(g)
}

func vgen_coin(g *vrand) (string, string, string, string, int64, int64, int64) {
	a, b := vmk_id(g)
	n := g.n(9)
	if g.p(10) {
		n = 250 + g.n(10)
	}
	return a, b, vmk_to(g), string(g.bytes(n)), vmk_num(g), vmk_num(g), vmk_num(g)
}

func vgen_type(g *vrand) (string, string, string, int64, int64, int64, byte) {
	a, b := vmk_id(g)
	return a + "-" + b, vmk_to(g), "WICC", vmk_num(g), vmk_num(g), vmk_num(g), byte(g.n(30))
}

func vgen_regid(g *vrand) string {
	a, b := vmk_id(g)
	s := a + "-" + b
	if g.p(30) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}

func vmk_tx(g *vrand) string {
	b := g.bytes(20)
	b[0], b[1] = []byte{2, 3, 4, 11}[g.n(4)], 1
	if g.p(10) {
		b[g.n(2)] = byte(g.n(16))
	}
	if g.p(10) {
		b = b[:g.n(4)]
	}
	return vhexs(b)
}

func vgen_hash(g *vrand) string { return vmk_tx(g) }

func vgen_sign(g *vrand) (string, []byte) { return vmk_hex(g, 32), g.bytes(32) }

func vgen_combine(g *vrand) (string, []byte, []byte) {
	s := vmk_tx(g)
	h, _ := getHashFromEmptyRawTrans(s)
	if g.p(10) {
		h = g.bytes(32)
	}
	pri := g.bytes(32)
	pub, _ := owcrypt.GenPubkey(pri, owcrypt.ECC_CURVE_SECP256K1)
	sig, _, _ := owcrypt.Signature(pri, nil, h, owcrypt.ECC_CURVE_SECP256K1)
	pub = owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1)
	if g.p(10) {
		sig = g.mutb(sig)
	}
	if g.p(10) {
		pub = g.mutb(pub)
	}
	return s, pub, sig
}
