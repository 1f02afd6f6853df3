//vp:packages rippleTransaction
//vp:prop P16
package PKG

import (
	"encoding/hex"
	"strings"

	"github.com/blocktree/go-owcrypt"
)

func vsigned(pri, msg, sig []byte, curve uint32) bool {
	pub, r := owcrypt.GenPubkey(pri, curve)
	return r == owcrypt.SUCCESS && owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vverified(pub, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vspec_be32(v uint32) []byte { return []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)} }

// positive drops: the native amount with its sign bit
func vspec_drops(v uint64) []byte {
	v |= 1 << 62
	return []byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)}
}

// a variable length field: prefix and content
func vspec_vl(s string) []byte {
	n := len(s)
	if n <= 192 {
		return append([]byte{byte(n)}, s...)
	}
	if n <= 12480 {
		return append([]byte{byte(193 + (n-193)/256), byte((n - 193) % 256)}, s...)
	}
	return append([]byte{byte(241 + (n-12481)/65536), byte((n - 12481) / 256 % 256), byte((n - 12481) % 256)}, s...)
}

func vspec_memos(mt, md, mf string) []byte {
	if md == "" {
		return nil
	}
	r := []byte{0xf9, 0xea}
	if mt != "" {
		r = append(append(r, 0x7c), vspec_vl(mt)...)
	}
	r = append(append(r, 0x7d), vspec_vl(md)...)
	if mf != "" {
		r = append(append(r, 0x7e), vspec_vl(mf)...)
	}
	return append(r, 0xe1, 0xf1)
}

func vlemma_memo(s string) {
	vassume(len(s) <= 918744)
	veqb(memoToBytes(s), vspec_vl(s))
	vreach()
}

// every field of a payment: its identifying bytes and its value; whatever cannot be written is refused
//vp:opt opaque=GetProgramHashFromAddress,getMemosBytes
func vlemma_newtx(from, pub string, seq uint32, to string, amount, fee uint64, tag int64, last uint32, mt, md, mf string) {
	t, err := NewTxStruct(from, pub, seq, to, amount, fee, "", tag, last, mt, md, mf)
	p, e1 := hex.DecodeString(pub)
	a, e2 := GetProgramHashFromAddress(from)
	b, e3 := GetProgramHashFromAddress(to)
	if e1 != nil || e2 != nil || e3 != nil || len(p) != 33 || (p[0] != 2 && p[0] != 3) || amount == 0 || fee == 0 || amount>>62 != 0 || fee>>62 != 0 || tag > 0xffffffff || len(mt) > 918744 || len(md) > 918744 || len(mf) > 918744 {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(t.TransactionType, []byte{0x12, 0, 0})
	veqb(t.Flags, []byte{0x22, 0x80, 0, 0, 0})
	veqb(t.Sequence, append([]byte{0x24}, vspec_be32(seq)...))
	veqb(t.LastLedgerSequence, append([]byte{0x20, 27}, vspec_be32(last)...))
	if tag < 0 {
		vassert(len(t.DestinationTag) == 0)
	} else {
		veqb(t.DestinationTag, append([]byte{0x2e}, vspec_be32(uint32(tag))...))
	}
	veqb(t.Amount, append([]byte{0x61}, vspec_drops(amount)...))
	veqb(t.Fee, append([]byte{0x68}, vspec_drops(fee)...))
	veqb(t.SigningPubKey, append([]byte{0x73, 33}, p...))
	vassert(len(t.TxnSignature) == 0)
	veqb(t.Account, append([]byte{0x81, byte(len(a))}, a...))
	veqb(t.Destination, append([]byte{0x83, byte(len(b))}, b...))
	veqb(t.Memos, getMemosBytes(mt, md, mf))
	vreach()
}

//vp:opt contracts=memoToBytes:vspec_vl
func vlemma_memos(mt, md, mf string) {
	vassume(len(mt) <= 918744 && len(md) <= 918744 && len(mf) <= 918744)
	veqb(getMemosBytes(mt, md, mf), vspec_memos(mt, md, mf))
	vreach()
}

//vp:opt opaque=Decode
func vlemma_address(s string) {
	h, err := GetProgramHashFromAddress(s)
	vassert(err != nil || len(h) == 20)
}

// fields in canonical order, with and without the signature
func vlemma_bytes(t TxStruct) {
	var a, b []byte
	for _, f := range [][]byte{t.TransactionType, t.Flags, t.Sequence, t.DestinationTag, t.LastLedgerSequence, t.Amount, t.Fee, t.SigningPubKey} {
		a = append(a, f...)
	}
	for _, f := range [][]byte{t.Account, t.Destination, t.Memos} {
		b = append(b, f...)
	}
	veqs(t.ToEmptyRawWiths(), hex.EncodeToString(a)+"s"+hex.EncodeToString(b))
	veqb(t.GetHash(), owcrypt.Hash(append(append([]byte{0x53, 0x54, 0x58, 0}, a...), b...), 0, owcrypt.HASH_ALG_SHA512)[:32])
	veqb(t.ToBytes(), append(append(a, t.TxnSignature...), b...))
	vreach()
}

// what is handed out to be signed
//vp:opt opaque=NewTxStruct,TxStruct).ToEmptyRawWiths,TxStruct).GetHash
func vlemma_create(from, pub string, tag int64, seq uint32, to string, amount, fee uint64, last uint32, mt, md, mf string) {
	s, h, err := CreateEmptyRawTransactionAndHash(from, pub, tag, seq, to, amount, fee, last, mt, md, mf)
	t, e := NewTxStruct(from, pub, seq, to, amount, fee, "", tag, last, mt, md, mf)
	if e != nil {
		vassert(err != nil && s == "" && h == "")
		return
	}
	vassert(err == nil)
	veqs(s, t.ToEmptyRawWiths())
	veqs(h, hex.EncodeToString(t.GetHash()))
	vreach()
}

//vp:opt opaque=serilizeS
func vlemma_sign(h string, pri []byte) {
	p := vcopy(pri)
	s, err := SignRawTransaction(h, pri)
	msg, e := hex.DecodeString(h)
	if e != nil || len(msg) != 32 || len(pri) != 32 {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	if err == nil {
		b, e := hex.DecodeString(s)
		vassert(e == nil && vsigned(p, msg, b, owcrypt.ECC_CURVE_SECP256K1))
		vreach()
	}
}

// combining what was created: only a signature that verifies over this transaction's digest is accepted, and it is placed at its field
//vp:opt opaque=getSignatureBytes
func vlemma_combine(a, b []byte, sig, pub string) {
	ok, r := VerifyAndCombinRawTransaction(hex.EncodeToString(a)+"s"+hex.EncodeToString(b), sig, pub)
	if !ok {
		vassert(r == "")
		return
	}
	s, e1 := hex.DecodeString(sig)
	p, e2 := hex.DecodeString(pub)
	vassert(e1 == nil && e2 == nil && len(s) == 64)
	q := owcrypt.PointDecompress(p, owcrypt.ECC_CURVE_SECP256K1)
	msg := owcrypt.Hash(append(append([]byte{0x53, 0x54, 0x58, 0}, a...), b...), 0, owcrypt.HASH_ALG_SHA512)[:32]
	vassert(len(q) > 0 && vverified(q[1:], msg, s, owcrypt.ECC_CURVE_SECP256K1))
	veqs(r, hex.EncodeToString(append(append(append(append([]byte{}, a...), 0x74), getSignatureBytes(s)...), b...)))
	vreach()
}

// any text offered for combining is refused or accepted, never a crash, and never without the place for the signature
//vp:opt opaque=getSignatureBytes
func vlemma_combinetotal(tx, sig, pub string) {
	ok, r := VerifyAndCombinRawTransaction(tx, sig, pub)
	vassert(!ok || strings.Count(tx, "s") == 1)
	vassert(ok || r == "")
}

func vmk_addr(g *vrand) string {
	h := append([]byte{0}, g.bytes(20)...)
	if g.p(8) {
		h[0] = byte(g.n(256))
	}
	h = append(h, owcrypt.Hash(h, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]...)
	a := Encode(h, RippleAlphabet)
	if g.p(8) {
		a = string(g.mutb([]byte(a)))
	}
	return a
}

func vmk_pub(g *vrand) string {
	p := append([]byte{byte(2 + g.n(2))}, g.bytes(32)...)
	if g.p(10) {
		p = g.mutb(p)
	}
	return hex.EncodeToString(p)
}

func vmk_amount(g *vrand) uint64 {
	if g.p(70) {
		return g.u64()>>uint(2+g.n(60)) | 1
	}
	return g.u64()
}

func vmk_tag(g *vrand) int64 {
	switch g.n(4) {
	case 0:
		return -1
	case 1:
		return int64(g.u64())
	}
	return int64(uint32(g.u64()))
}

func vmk_memo(g *vrand) string {
	if g.p(30) {
		return ""
	}
	n := g.n(20)
	if g.p(30) {
		n = 185 + g.n(20)
	}
	if g.p(5) {
		n = 12470 + g.n(20)
	}
	return string(g.bytes(n))
}

func vgen_memo(g *vrand) string { return vmk_memo(g) }
func vgen_memos(g *vrand) (string, string, string) { return vmk_memo(g), vmk_memo(g), vmk_memo(g) }
func vgen_address(g *vrand) string { return vmk_addr(g) }

func vgen_newtx(g *vrand) (string, string, uint32, string, uint64, uint64, int64, uint32, string, string, string) {
	return vmk_addr(g), vmk_pub(g), uint32(g.u64()), vmk_addr(g), vmk_amount(g), vmk_amount(g), vmk_tag(g), uint32(g.u64()), vmk_memo(g), vmk_memo(g), vmk_memo(g)
}

func vgen_create(g *vrand) (string, string, int64, uint32, string, uint64, uint64, uint32, string, string, string) {
	return vmk_addr(g), vmk_pub(g), vmk_tag(g), uint32(g.u64()), vmk_addr(g), vmk_amount(g), vmk_amount(g), uint32(g.u64()), vmk_memo(g), vmk_memo(g), vmk_memo(g)
}

func vgen_sign(g *vrand) (string, []byte) {
	if g.p(20) {
		return g.str(), g.blob()
	}
	return vhexs(g.bytes(32)), g.bytes(32)
}

func vgen_combine(g *vrand) ([]byte, []byte, string, string) {
	a, b := g.bytes(g.n(40)), g.bytes(g.n(40))
	k := g.bytes(32)
	k[0] &= 0x7f
	k[31] |= 1
	m := owcrypt.Hash(append(append([]byte{0x53, 0x54, 0x58, 0}, a...), b...), 0, owcrypt.HASH_ALG_SHA512)[:32]
	sig, _, _ := owcrypt.Signature(k, nil, m, owcrypt.ECC_CURVE_SECP256K1)
	pub, _ := owcrypt.GenPubkey(k, owcrypt.ECC_CURVE_SECP256K1)
	if g.p(20) {
		sig = g.mutb(sig)
	}
	return a, b, vhexs(sig), vhexs(owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1))
}

func vgen_combinetotal(g *vrand) (string, string, string) {
	a, b, s, p := vgen_combine(g)
	t := vhexs(a) + "s" + vhexs(b)
	if g.p(50) {
		t = string(g.mutb([]byte(t)))
	}
	return t, s, p
}
