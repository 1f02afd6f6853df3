//vp:packages polkadotTransaction
//vp:prop P20
package PKG

import (
	"encoding/hex"
	"unicode/utf8"

	"github.com/blocktree/go-owcrypt"
)

func vsigned(pri, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(owcrypt.Point_mulBaseG(pri, curve), nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vverified(pub, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vspec_le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

// the SCALE compact form of a number
func vspec_compact(v uint64) []byte {
	if v < 1<<6 {
		return []byte{byte(v << 2)}
	}
	if v < 1<<14 {
		return []byte{byte(v<<2 | 1), byte(v >> 6)}
	}
	if v < 1<<30 {
		return vspec_le32(uint32(v)<<2 | 2)
	}
	if v < 1<<32 {
		return []byte{3, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)}
	}
	if v < 1<<40 {
		return []byte{7, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32)}
	}
	if v < 1<<48 {
		return []byte{11, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40)}
	}
	if v < 1<<56 {
		return []byte{15, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48)}
	}
	return []byte{19, byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)}
}

//vp:opt summ=-*
func vlemma_compact(v uint64) {
	b, err := hex.DecodeString(Encode(v))
	vassert(err == nil)
	veqb(b, vspec_compact(v))
	vreach()
}

func vopq_enc(v uint64) []byte {
	b, _ := hex.DecodeString(Encode(v))
	return b
}

func vcontract_enc(v uint64) string {
	b := vopq_enc(v)
	vassume(len(b) > 0)
	return hex.EncodeToString(b)
}

// a mortal era of 64 blocks that begins in the given block
func vlemma_era(h uint64) {
	p := h % 64
	veqb(GetEra(h), []byte{byte(5 + p%16*16), byte(p / 16)})
	vreach()
}

//vp:opt opaque=vopq_enc contracts=Encode:vcontract_enc
func vlemma_method(to string, amount uint64, code string) {
	m, err := NewMethodTransfer(to, amount)
	p, e := hex.DecodeString(to)
	if e != nil || len(p) != 32 || amount == 0 {
		vassert(err != nil && m == nil)
		vreach()
		return
	}
	vassert(err == nil)
	b, err := m.ToBytes(code)
	c, e := hex.DecodeString(code)
	if e != nil || len(c) == 0 {
		vassert(err != nil && b == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(b, append(append(append([]byte{}, c...), p...), vopq_enc(amount)...))
	vreach()
}

func vopq_call(to string, amount uint64, code string) ([]byte, bool) {
	m, err := NewMethodTransfer(to, amount)
	if err != nil {
		return nil, false
	}
	b, err := m.ToBytes(code)
	return b, err == nil
}

func vspec_num(v uint64) []byte {
	if v == 0 {
		return []byte{0}
	}
	return vopq_enc(v)
}

// what is signed: the call, era, nonce, tip, versions, genesis and block, in this order; bad hashes, addresses or heights are refused
//vp:opt opaque=vopq_enc,GetEra,ToJSONString contracts=Encode:vcontract_enc
func vlemma_payload(t TxStruct, code string) {
	s, msg, err := t.CreateEmptyTransactionAndMessage(code)
	p, e0 := hex.DecodeString(t.RecipientPubkey)
	c, e1 := hex.DecodeString(code)
	ge, e2 := hex.DecodeString(t.GenesisHash)
	bl, e3 := hex.DecodeString(t.BlockHash)
	if e0 != nil || len(p) != 32 || e1 != nil || len(c) == 0 || t.Amount == 0 || t.BlockHeight == 0 || e2 != nil || len(ge) != 32 || e3 != nil || len(bl) != 32 {
		vassert(err != nil && s == "" && msg == "")
		vreach()
		return
	}
	vassert(err == nil)
	veqs(s, t.ToJSONString())
	var w []byte
	w = append(append(append(w, c...), p...), vopq_enc(t.Amount)...)
	w = append(w, GetEra(t.BlockHeight)...)
	w = append(append(w, vspec_num(t.Nonce)...), vspec_num(t.Fee)...)
	w = append(append(w, vspec_le32(t.SpecVersion)...), vspec_le32(t.TxVersion)...)
	w = append(append(w, ge...), bl...)
	veqs(msg, hex.EncodeToString(w))
	vreach()
}

// the signed transaction: length, version, sender, signature, era, nonce, tip and the call
//vp:opt opaque=vopq_enc,GetEra contracts=Encode:vcontract_enc
func vlemma_signed(t TxStruct, code, sig string) {
	s, err := t.GetSignedTransaction(code, sig)
	f, e4 := hex.DecodeString(t.SenderPubkey)
	g, e5 := hex.DecodeString(sig)
	p, e0 := hex.DecodeString(t.RecipientPubkey)
	c, e1 := hex.DecodeString(code)
	if e4 != nil || len(f) != 32 || e5 != nil || len(g) != 64 || e0 != nil || len(p) != 32 || e1 != nil || len(c) == 0 || t.Amount == 0 || t.BlockHeight == 0 {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	vassert(err == nil)
	w := append([]byte{0x84, 0}, f...)
	w = append(append(w, 0), g...)
	w = append(w, GetEra(t.BlockHeight)...)
	w = append(append(w, vspec_num(t.Nonce)...), vspec_num(t.Fee)...)
	w = append(append(append(w, c...), p...), vopq_enc(t.Amount)...)
	veqs(s, "0x"+hex.EncodeToString(vopq_enc(uint64(len(w))))+hex.EncodeToString(w))
	vreach()
}

// the signature is over the message
func vlemma_sign(m string, pri []byte) {
	p := vcopy(pri)
	s, err := SignTransaction(m, pri)
	b, e := hex.DecodeString(m)
	if e != nil || len(b) == 0 || len(pri) != 32 {
		vassert(err != nil && s == nil)
		vreach()
		return
	}
	if err == nil {
		vassert(p[0]&7 != 0 || p[31]&0xc0 != 0x40 || vsigned(p, b, s, owcrypt.ECC_CURVE_ED25519))
		vreach()
	}
}

// only a signature of the sender over the message of this transaction is accepted, and the result is the signed transaction
//vp:opt opaque=NewTxStructFromJSON,NewTxPayLoad,ToBytesString,GetSignedTransaction
func vlemma_combine(code, s, sig string) {
	r, ok := VerifyAndCombineTransaction(code, s, sig)
	if !ok {
		vassert(r == "")
		return
	}
	t, e := NewTxStructFromJSON(s)
	vassert(e == nil)
	p, e := t.NewTxPayLoad(code)
	vassert(e == nil)
	m, e := hex.DecodeString(p.ToBytesString())
	vassume(e == nil) // vlemma_payload: it is the hexadecimal text of the message
	k, e := hex.DecodeString(t.SenderPubkey)
	vassume(e == nil) // vlemma_signed: else there is no signed transaction
	g, e := hex.DecodeString(sig)
	vassert(e == nil && len(g) == 64)
	vassert(vverified(k, m, g, owcrypt.ECC_CURVE_ED25519))
	w, e := t.GetSignedTransaction(code, sig)
	vassert(e == nil)
	veqs(r, w)
	vreach()
}

// the text handed out is read back as the same request
//vp:opt search=json
func vlemma_json(t TxStruct) {
	vassume(utf8.ValidString(t.SenderPubkey + t.RecipientPubkey + t.BlockHash + t.GenesisHash))
	r, err := NewTxStructFromJSON(t.ToJSONString())
	vassert(err == nil && *r == t)
}

// created, signed and combined: a transaction
//vp:opt search=crypto
func vlemma_whole(t TxStruct, code string, pri []byte) {
	vassume(len(pri) == 32)
	pri[0] &= 248
	pri[31] = pri[31]&63 | 64
	t.SenderPubkey = hex.EncodeToString(owcrypt.Point_mulBaseG(pri, owcrypt.ECC_CURVE_ED25519))
	s, m, err := t.CreateEmptyTransactionAndMessage(code)
	if err != nil {
		return
	}
	g, err := SignTransaction(m, pri)
	vassert(err == nil)
	r, ok := VerifyAndCombineTransaction(code, s, hex.EncodeToString(g))
	vassert(ok)
	w, _ := t.GetSignedTransaction(code, hex.EncodeToString(g))
	veqs(r, w)
	g[3] ^= 1
	r, ok = VerifyAndCombineTransaction(code, s, hex.EncodeToString(g))
	vassert(!ok && r == "")
}

func vmk_hex(g *vrand, n int) string {
	b := g.bytes(n)
	if g.p(5) {
		b = g.mutb(b)
	}
	s := vhexs(b)
	if g.p(4) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}

func vmk_num(g *vrand) uint64 {
	if g.p(10) {
		return 0
	}
	return g.u64() >> uint(g.n(64))
}

func vmk_t(g *vrand) TxStruct {
	return TxStruct{vmk_hex(g, 32), vmk_hex(g, 32), vmk_num(g), vmk_num(g), vmk_num(g), vmk_num(g), vmk_hex(g, 32), vmk_hex(g, 32), uint32(g.u64()), uint32(g.u64())}
}

func vmk_code(g *vrand) string {
	if g.p(5) {
		return g.str()
	}
	return vmk_hex(g, 3)
}

func vgen_compact(g *vrand) uint64 {
	v := g.u64() >> uint(g.n(65))
	if g.p(30) {
		v = uint64(1)<<uint(g.n(64)) - uint64(g.n(2))
	}
	return v
}

func vgen_era(g *vrand) uint64 { return vmk_num(g) }

func vgen_method(g *vrand) (string, uint64, string) { return vmk_hex(g, 32), vmk_num(g), vmk_code(g) }
func vgen_payload(g *vrand) (TxStruct, string)      { return vmk_t(g), vmk_code(g) }

func vgen_signed(g *vrand) (TxStruct, string, string) { return vmk_t(g), vmk_code(g), vmk_hex(g, 64) }

func vgen_sign(g *vrand) (string, []byte) {
	if g.p(20) {
		return g.str(), g.blob()
	}
	k := g.bytes(32)
	k[0] &= 248
	k[31] = k[31]&63 | 64
	return vhexs(g.bytes(1 + g.n(100))), k
}

func vgen_combine(g *vrand) (string, string, string) {
	t, c := vmk_t(g), vmk_code(g)
	k := g.bytes(32)
	k[0] &= 248
	k[31] = k[31]&63 | 64
	t.SenderPubkey = vhexs(owcrypt.Point_mulBaseG(k, owcrypt.ECC_CURVE_ED25519))
	s, m, err := t.CreateEmptyTransactionAndMessage(c)
	vassume(err == nil)
	if g.p(10) {
		m = string(g.mutb([]byte(m)))
	}
	sig, err := SignTransaction(m, k)
	vassume(err == nil)
	if g.p(10) {
		sig = g.mutb(sig)
	}
	return c, s, vhexs(sig)
}

func vgen_json(g *vrand) TxStruct {
	t := vmk_t(g)
	if g.p(20) {
		t.BlockHash = "<&\">\\"
	}
	return t
}

func vgen_whole(g *vrand) (TxStruct, string, []byte) { return vmk_t(g), vmk_code(g), g.bytes(32) }
