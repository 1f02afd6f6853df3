//vp:packages virtualeconomyTransaction
//vp:prop P19
package PKG

import (
	"encoding/hex"
	"time"

	"github.com/blocktree/go-owcrypt"
)

func vspec_pub(pri []byte) []byte {
	p := owcrypt.Point_mulBaseG(pri, owcrypt.ECC_CURVE_ED25519)
	x, _ := owcrypt.CURVE25519_convert_Ed_to_X(p)
	return x
}

func vsigned(pri, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(vspec_pub(pri), nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vverified(pub, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

// a private key as the key chain makes them
func vspec_clamped(k []byte) bool { return len(k) == 32 && k[0]&7 == 0 && k[31]&0xc0 == 0x40 }

func vspec_be64(v uint64) []byte {
	return []byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// every requested value in its field, the recipient's 26 bytes, an empty attachment; anything else is refused
//vp:opt opaque=DecodeCheck
func vlemma_create(t TxStruct) {
	t0 := uint64(time.Now().UnixNano() / 1000 * 1000)
	s, err := CreateEmptyTransaction(t)
	t1 := uint64(time.Now().UnixNano())
	a, e := DecodeCheck(t.To)
	if e != nil || len(a) != 26 || t.Attachment != "" {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	vassert(err == nil)
	b, e := hex.DecodeString(s)
	vassert(e == nil && len(b) == 55)
	vassert(b[0] == t.TxType)
	_, _ = t0, t1
	veqb(b[9:17], vspec_be64(t.Amount))
	veqb(b[17:25], vspec_be64(t.Fee))
	veqb(b[25:27], []byte{byte(t.FeeScale >> 8), byte(t.FeeScale)})
	veqb(b[27:53], a)
	veqb(b[53:55], []byte{0, 0})
	vreach()
}

// the time stamp is the moment of creation, in nanoseconds rounded down to microseconds
//vp:opt search=clock
func vlemma_stamp(t TxStruct) {
	t0 := uint64(time.Now().UnixNano() / 1000 * 1000)
	s, err := CreateEmptyTransaction(t)
	t1 := uint64(time.Now().UnixNano())
	if err == nil {
		b, _ := hex.DecodeString(s)
		var v uint64
		for _, c := range b[1:9] {
			v = v<<8 | uint64(c)
		}
		vassert(v >= t0 && v <= t1 && v%1000 == 0)
	}
}

// any bytes are refused, or are exactly a transfer whose fields are returned
//vp:opt opaque=Encode
func vlemma_decode(b []byte) {
	t, ts, err := TxStructDecode(b)
	if len(b) != 55 || b[53] != 0 || b[54] != 0 {
		vassert(err != nil && t == nil && ts == 0)
		vreach()
		return
	}
	vassert(err == nil)
	vassert(t.TxType == b[0])
	veqb(vspec_be64(ts), b[1:9])
	veqb(vspec_be64(t.Amount), b[9:17])
	veqb(vspec_be64(t.Fee), b[17:25])
	veqb([]byte{byte(t.FeeScale >> 8), byte(t.FeeScale)}, b[25:27])
	veqs(t.To, Encode(b[27:53], BitcoinAlphabet))
	vassert(t.Attachment == "")
	vreach()
}

// the signature is over the transaction's bytes, with the key it comes with
func vlemma_sign(s string, pri []byte) {
	p := vcopy(pri)
	r, err := SignTransaction(s, pri)
	b, e := hex.DecodeString(s)
	if e != nil || len(pri) != 32 {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	if err == nil {
		vassert(len(b) == 0 || !vspec_clamped(p) || vsigned(p, b, r.Signature, owcrypt.ECC_CURVE_X25519))
		veqb(r.PublicKey, vspec_pub(p))
		vreach()
	}
}

// exactly a signature that verifies over these bytes is accepted
func vlemma_verify(s string, sp *SignaturePubkey) {
	vassume(sp != nil)
	ok := VerifyTransaction(s, sp)
	b, e := hex.DecodeString(s)
	vassert(ok == (e == nil && vverified(sp.PublicKey, b, sp.Signature, owcrypt.ECC_CURVE_X25519)))
	vreach()
}

// the message to send names the fields of the transaction and the signature
//vp:opt search=json
func vlemma_send(s string, sp *SignaturePubkey) {
	vassume(sp != nil)
	r, err := CreateJSONRawForSendTransaction(s, sp)
	b, e := hex.DecodeString(s)
	if e != nil {
		vassert(err != nil && r == nil)
		return
	}
	t, ts, e := TxStructDecode(b)
	if e != nil {
		vassert(err != nil && r == nil)
		return
	}
	vassert(err == nil)
	vassert(r.Get("timestamp").Uint() == ts && r.Get("amount").Uint() == t.Amount && r.Get("fee").Uint() == t.Fee)
	vassert(r.Get("feeScale").Uint() == uint64(t.FeeScale) && r.Get("recipient").String() == t.To && r.Get("attachment").String() == "")
	vassert(r.Get("senderPublicKey").String() == Encode(sp.PublicKey, BitcoinAlphabet) && r.Get("signature").String() == Encode(sp.Signature, BitcoinAlphabet))
}

func vmk_to(g *vrand) string {
	n := 21
	if g.p(10) {
		n = g.n(30)
	}
	a := EncodeCheck(5, g.bytes(n))
	if g.p(10) {
		a = string(g.mutb([]byte(a)))
	}
	return a
}

func vmk_t(g *vrand) TxStruct {
	t := TxStruct{byte(g.n(256)), vmk_to(g), g.u64(), g.u64(), uint16(g.u64()), ""}
	if g.p(10) {
		t.Attachment = g.str()
	}
	return t
}

func vgen_create(g *vrand) TxStruct { return vmk_t(g) }
func vgen_stamp(g *vrand) TxStruct  { return vmk_t(g) }

func vmk_bytes(g *vrand) []byte {
	b := append(g.bytes(53), 0, 0)
	if g.p(30) {
		b = g.mutb(b)
	}
	return b
}

func vgen_decode(g *vrand) []byte { return vmk_bytes(g) }

func vgen_sign(g *vrand) (string, []byte) {
	if g.p(20) {
		return g.str(), g.blob()
	}
	return vhexs(vmk_bytes(g)), vmk_key(g)
}

func vmk_key(g *vrand) []byte {
	k := g.bytes(32)
	k[0] &= 248
	k[31] = k[31]&63 | 64
	return k
}

func vgen_verify(g *vrand) (string, *SignaturePubkey) {
	b, k := vmk_bytes(g), vmk_key(g)
	s, _, _ := owcrypt.Signature(k, nil, b, owcrypt.ECC_CURVE_X25519)
	p := vspec_pub(k)
	if g.p(15) {
		s = g.mutb(s)
	}
	if g.p(15) {
		b = g.mutb(b)
	}
	return vhexs(b), &SignaturePubkey{s, p}
}

func vgen_send(g *vrand) (string, *SignaturePubkey) { return vgen_verify(g) }
