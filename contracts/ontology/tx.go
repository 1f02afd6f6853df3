//vp:packages ontologyTransaction
//vp:prop P24
package PKG

import (
	"encoding/hex"
	"math/big"

	"github.com/blocktree/go-owcrypt"
)

func vsigned(pri, msg, sig []byte, curve uint32) bool {
	pub, r := owcrypt.GenPubkey(pri, curve)
	return r == owcrypt.SUCCESS && owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vverified(pub, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

// the virtual machine's reading of a pushed number that is not negative
func vspec_push(b []byte) (v uint64, ok bool) {
	if len(b) == 0 {
		return 0, false
	}
	if b[0] == 0 || b[0] > 0x50 && b[0] < 0x60 {
		return uint64(b[0]) % 0x50, len(b) == 1
	}
	if int(b[0]) != len(b)-1 || b[0] > 9 || b[len(b)-1] >= 128 || b[0] == 9 && b[9] != 0 {
		return 0, false
	}
	for i := 1; i < len(b) && i < 9; i++ {
		v |= uint64(b[i]) << uint(8*(i-1))
	}
	return v, true
}

// an amount is pushed so that the virtual machine reads it back
//vp:opt summ=-*
func vlemma_emit(v uint64) {
	n, ok := vspec_push(uint64ToEmitBytes(v))
	vassert(ok && n == v)
	vreach()
}

//vp:opt search=big
func vlemma_emitbig(v uint64, b []byte) {
	vassume(len(b) < 200)
	n, ok := vspec_push(bigIntToEmitBytes(new(big.Int).SetUint64(v)))
	vassert(ok && n == v)
	x := new(big.Int).SetBytes(b)
	p := bigIntToEmitBytes(x)
	if x.IsUint64() {
		return
	}
	k := 1
	if len(p) > 0x4b+1 {
		vassert(p[0] == 0x4c)
		k = 2
	}
	vassert(len(p) > k && int(p[k-1]) == len(p)-k && p[len(p)-1] < 128)
	q := vcopy(p[k:])
	for i, j := 0, len(q)-1; i < j; i, j = i+1, j-1 {
		q[i], q[j] = q[j], q[i]
	}
	vassert(new(big.Int).SetBytes(q).Cmp(x) == 0)
	vreach()
}

// the call of the contract: sender (for a withdrawal the ONT contract), recipient, amount, method and contract
func vspec_call(asset int, from, to, amount []byte, method string) []byte {
	w := append([]byte{0, 0xc6, 0x6b, 0x6a, 20}, from...)
	w = append(w, 0xc8, 0x6a)
	if asset == 2 {
		w = append(w, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0xc8, 0x6a)
	}
	w = append(w, 20)
	w = append(w, to...)
	w = append(w, 0xc8, 0x6a)
	w = append(w, amount...)
	w = append(w, 0xc8, 0x6c)
	if asset == 2 {
		method = "transferFrom"
	} else {
		w = append(w, 0x51, 0xc1)
	}
	w = append(w, byte(len(method)))
	w = append(w, method...)
	w = append(w, 20, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	if asset == 0 {
		w = append(w, 1)
	} else {
		w = append(w, 2)
	}
	w = append(w, 0, 0x68, 22)
	return append(w, "Ontology.Native.Invoke"...)
}

func vopq_emit(v uint64) []byte { return uint64ToEmitBytes(v) }

// proved by vlemma_emit
func vcontract_emit(v uint64) []byte {
	if vlit(int64(v)) && v == 1 {
		return []byte{0x51}
	}
	b := vopq_emit(v)
	vassume(len(b) >= 1 && len(b) <= 10)
	return b
}

//vp:opt opaque=DecodeCheck,vopq_emit contracts=uint64ToEmitBytes:+vcontract_emit summ=-reverseBytes
func vlemma_call(t TxState) {
	b, err := NewNativeInvoke(t).ToBytes()
	p, f, e := DecodeCheck(t.From)
	q, r, e2 := DecodeCheck(t.To)
	if t.AssetType < 0 || t.AssetType > 2 || e != nil || p != 0x17 || len(f) != 20 || e2 != nil || q != 0x17 || len(r) != 20 {
		vassert(err != nil && b == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(b, vspec_call(t.AssetType, f, r, uint64ToEmitBytes(t.Amount), "transfer"))
	vreach()
}

//vp:opt search=big
func vlemma_callbig(t TxState, neg bool) {
	a := new(big.Int).SetUint64(t.Amount)
	if neg {
		a.Neg(a)
	}
	b, err := NewNativeInvokeV2(TxStateV2{t.AssetType, t.Payer, t.From, t.To, a}).ToBytes()
	p, f, e := DecodeCheck(t.From)
	q, r, e2 := DecodeCheck(t.To)
	if t.AssetType < 0 || t.AssetType > 2 || e != nil || p != 0x17 || len(f) != 20 || e2 != nil || q != 0x17 || len(r) != 20 || a.Sign() < 0 {
		vassert(err != nil && b == nil)
		return
	}
	vassert(err == nil)
	veqb(b, vspec_call(t.AssetType, f, r, bigIntToEmitBytes(a), "transferV2"))
	vreach()
}

func vspec_head(t Transaction) []byte {
	w := append([]byte{t.Version, t.TxType}, t.Nonce...)
	w = append(w, t.GasPrice...)
	w = append(w, t.GaseLimit...)
	w = append(w, t.Payer...)
	w = append(w, byte(len(t.Payload)))
	w = append(w, t.Payload...)
	return append(w, t.Attributes)
}

func vspec_sig(s SigPub) []byte {
	w := append([]byte{byte(len(s.Signature) + 1), byte(len(s.Signature))}, s.Signature...)
	w = append(w, byte(len(s.PublicKey)+2), byte(len(s.PublicKey)))
	w = append(w, s.PublicKey...)
	return append(w, 0xac)
}

// the transaction: every field of its size, in order, then its signatures behind their number
func vlemma_bytes(t Transaction, sp []SigPub, signed bool) {
	t.SigDatas = nil
	if signed {
		t.SigDatas = []SigData{SigData{0, sp}}
	}
	b, err := t.ToBytes()
	if len(t.Nonce) != 4 || len(t.GasPrice) != 8 || len(t.GaseLimit) != 8 || len(t.Payer) != 20 || len(t.Payload) == 0 || len(t.Payload) > 252 {
		vassert(err != nil && b == nil)
		vreach()
		return
	}
	vassert(err == nil)
	w := vspec_head(t)
	if !signed {
		veqb(b, append(w, 0))
		vreach()
		return
	}
	w = append(w, byte(len(sp)))
	for i := 0; i < len(sp); i++ {
		w = append(w, vspec_sig(sp[i])...)
	}
	veqb(b, w)
	vreach()
}

// what is handed out: the call with its gas, payer (the sender when none is named) and a nonce, unsigned, and the triple SHA-256 of all but the number of signatures
//vp:opt opaque=DecodeCheck,NativeInvoke).ToBytes
func vlemma_create(gp, gl uint64, t TxState) {
	s, h, err := CreateRawTransactionAndHash(gp, gl, t)
	if t.Payer == "" {
		t.Payer = t.From
	}
	c, e := NewNativeInvoke(t).ToBytes()
	p, a, e2 := DecodeCheck(t.Payer)
	if err != nil {
		vassert(s == "" && h == nil)
		return
	}
	vassert(e == nil && e2 == nil && p == 0x17 && len(a) == 20 && len(c) > 0 && len(c) <= 252)
	b, e := hex.DecodeString(s)
	vassert(e == nil && len(b) == 43+len(c)+2)
	w := append([]byte{0, 0xd1}, b[2:6]...)
	w = append(w, byte(gp), byte(gp>>8), byte(gp>>16), byte(gp>>24), byte(gp>>32), byte(gp>>40), byte(gp>>48), byte(gp>>56))
	w = append(w, byte(gl), byte(gl>>8), byte(gl>>16), byte(gl>>24), byte(gl>>32), byte(gl>>40), byte(gl>>48), byte(gl>>56))
	w = append(w, a...)
	w = append(w, byte(len(c)))
	w = append(w, c...)
	w = append(w, 0)
	veqb(b, append(vcopy(w), 0))
	veqs(h.Hash, hex.EncodeToString(owcrypt.Hash(owcrypt.Hash(w, 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)))
	veqs(h.Addresses[0], t.Payer)
	if t.Payer == t.From {
		vassert(len(h.Addresses) == 1)
	} else {
		vassert(len(h.Addresses) == 2)
		veqs(h.Addresses[1], t.From)
	}
	vreach()
}

// any bytes are refused or are exactly the transaction that is returned
func vlemma_decode(b []byte, i int) {
	o := vcopy(b)
	t, err := DecodeRawTransaction(b)
	vassert((t == nil) == (err != nil))
	if err != nil {
		return
	}
	vassert(len(t.Nonce) == 4 && len(t.GasPrice) == 8 && len(t.GaseLimit) == 8 && len(t.Payer) == 20 && len(t.Payload) > 0 && len(t.Payload) <= 252 && t.TxType == 0xd1 && t.Version == 0 && t.Attributes == 0)
	w := vspec_head(*t)
	if t.SigDatas == nil {
		veqb(append(w, 0), o)
		vreach()
		return
	}
	vassert(len(t.SigDatas) == 1 && t.SigDatas[0].Nrequired == 0)
	sp := t.SigDatas[0].SigPubs
	n := len(w)
	vassert(len(o) == n+1+102*len(sp) && len(sp) == int(o[n]) && len(sp) > 0)
	veqb(w, o[:n])
	if i >= 0 && i < len(sp) {
		veqb(vspec_sig(sp[i]), o[n+1+102*i:n+1+102*i+102])
		vreach()
	}
	vreach()
}

// one signature's part is read back
func vlemma_sigdecode(b []byte) {
	s, err := decodeSigPubBytes(b)
	vassert((s == nil) == (err != nil))
	if len(b) != 102 || b[0] != 65 || b[1] != 64 || b[66] != 35 || b[67] != 33 || b[101] != 0xac {
		vassert(err != nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(s.Signature, b[2:66])
	veqb(s.PublicKey, b[68:101])
	vreach()
}

// exactly the given hash is signed with the given key, with a low s, and the key's own public key is returned
//vp:opt opaque=serilizeS
func vlemma_sign(h string, pri []byte) {
	p := vcopy(pri)
	s, err := SignRawTransactionHash(h, pri)
	m, e := hex.DecodeString(h)
	if e != nil || len(m) != 32 || len(pri) != 32 {
		vassert(err != nil && s == nil)
		vreach()
		return
	}
	if err != nil {
		vassert(s == nil)
		return
	}
	vassert(vsigned(p, m, s.Signature, owcrypt.ECC_CURVE_SECP256R1))
	k, r := owcrypt.GenPubkey(p, owcrypt.ECC_CURVE_SECP256R1)
	vassert(r == owcrypt.SUCCESS)
	veqb(s.PublicKey, owcrypt.PointCompress(k, owcrypt.ECC_CURVE_SECP256R1))
	vreach()
}

func vopq_decode(b []byte) (Transaction, bool) {
	t, e := DecodeRawTransaction(b)
	if e != nil {
		return Transaction{}, false
	}
	return *t, true
}

// proved by vlemma_decode
func vcontract_decode(b []byte) (*Transaction, error) {
	t, ok := vopq_decode(b)
	if !ok {
		return nil, vspec_err{}
	}
	vassume(len(b) > 0 && len(t.Nonce) == 4 && len(t.GasPrice) == 8 && len(t.GaseLimit) == 8 && len(t.Payer) == 20 && len(t.Payload) > 0 && len(t.Payload) <= 252)
	return &t, nil
}

type vspec_err struct{}

func (vspec_err) Error() string { return "" }

// an unsigned transaction is combined exactly with signatures that all verify over its hash under the keys they come with
//vp:opt opaque=vopq_decode contracts=DecodeRawTransaction:+vcontract_decode
func vlemma_combine(s string, sp []SigPub, i int) {
	ok, r, err := VerifyAndCombineRawTransaction(s, sp)
	b, e := hex.DecodeString(s)
	vassert(ok == (err == nil))
	if !ok {
		vassert(r == "")
		vreach()
		return
	}
	vassert(e == nil)
	t, e := DecodeRawTransaction(b)
	vassert(e == nil && t.SigDatas == nil)
	if i >= 0 && i < len(sp) {
		h := owcrypt.Hash(owcrypt.Hash(b[:len(b)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
		k := owcrypt.PointDecompress(sp[i].PublicKey, owcrypt.ECC_CURVE_SECP256R1)
		vassert(len(k) > 0 && vverified(k[1:], h, sp[i].Signature, owcrypt.ECC_CURVE_SECP256R1))
		vreach()
	}
	w := vspec_head(*t)
	w = append(w, byte(len(sp)))
	for j := 0; j < len(sp); j++ {
		w = append(w, vspec_sig(sp[j])...)
	}
	veqs(r, hex.EncodeToString(w))
	vreach()
}

func vmk_hex(g *vrand, n int) string {
	b := g.bytes(n)
	if g.p(5) {
		b = g.mutb(b)
	}
	s := vhexs(b)
	if g.p(4) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}

func vmk_addr(g *vrand) string {
	p := AddressPrefix
	if g.p(5) {
		p = byte(g.n(256))
	}
	b := g.bytes(20)
	if g.p(5) {
		b = g.mutb(b)
	}
	s := EncodeCheck(p, b)
	if g.p(4) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}

func vgen_emit(g *vrand) uint64 {
	if g.p(30) {
		return uint64(1)<<uint(g.n(64)) - uint64(g.n(3))
	}
	return g.u64() >> uint(g.n(64))
}

func vgen_emitbig(g *vrand) (uint64, []byte) { return vgen_emit(g), g.bytes(g.n(100)) }

func vgen_call(g *vrand) TxState {
	t := TxState{g.n(3), "", vmk_addr(g), vmk_addr(g), vgen_emit(g)}
	if g.p(4) {
		t.AssetType = g.n(7) - 2
	}
	if g.p(30) {
		t.Payer = vmk_addr(g)
	}
	return t
}

func vgen_callbig(g *vrand) (TxState, bool) { return vgen_call(g), g.p(10) }

func vmk_tx(g *vrand) Transaction {
	t := Transaction{0, 0xd1, g.bytes(4), g.bytes(8), g.bytes(8), g.bytes(20), g.bytes(1 + g.n(60)), 0, nil}
	if g.p(5) {
		t.Payload = g.bytes(248 + g.n(10))
	}
	if g.p(5) {
		t.Payload = nil
	}
	if g.p(5) {
		t.Payer = g.mutb(t.Payer)
	}
	return t
}

func vmk_sigs(g *vrand) (r []SigPub) {
	for n := g.n(4); n > 0; n-- {
		r = append(r, SigPub{g.bytes(64), g.bytes(33)})
	}
	return
}

func vgen_bytes(g *vrand) (Transaction, []SigPub, bool) { return vmk_tx(g), vmk_sigs(g), g.p(50) }

func vgen_create(g *vrand) (uint64, uint64, TxState) { return g.u64(), g.u64(), vgen_call(g) }

func vgen_decode(g *vrand) ([]byte, int) {
	t := vmk_tx(g)
	if s := vmk_sigs(g); len(s) > 0 {
		t.SigDatas = []SigData{SigData{0, s}}
	}
	b, _ := t.ToBytes()
	if g.p(30) {
		b = g.mutb(b)
	}
	if g.p(30) && len(b) > 0 {
		b = b[:g.n(len(b))]
	}
	return b, g.n(3)
}

func vgen_sigdecode(g *vrand) []byte {
	b := SigPub{g.bytes(64), g.bytes(33)}.toBytes()
	if g.p(30) {
		b = g.mutb(b)
	}
	if g.p(30) {
		b = b[:g.n(len(b))]
	}
	return b
}

func vgen_sign(g *vrand) (string, []byte) { return vmk_hex(g, 32), g.bytes(32) }

func vgen_combine(g *vrand) (string, []SigPub, int) {
	t := vmk_tx(g)
	if g.p(5) {
		t.SigDatas = []SigData{SigData{0, vmk_sigs(g)}}
	}
	b, _ := t.ToBytes()
	if g.p(10) {
		b = g.mutb(b)
	}
	sp := []SigPub{}
	for n := g.n(3); n >= 0 && len(b) > 0; n-- {
		h := owcrypt.Hash(owcrypt.Hash(b[:len(b)-1], 0, owcrypt.HASH_ALG_DOUBLE_SHA256), 0, owcrypt.HASH_ALG_SHA256)
		if g.p(5) {
			h = g.bytes(32)
		}
		s, err := SignRawTransactionHash(vhexs(h), g.bytes(32))
		vassume(err == nil)
		if g.p(10) {
			s.Signature = g.mutb(s.Signature)
		}
		if g.p(5) {
			s.PublicKey = g.mutb(s.PublicKey)
		}
		sp = append(sp, *s)
		if g.p(20) {
			// the same key once more, with a signature that does not verify
			sp = append(sp, SigPub{PublicKey: s.PublicKey, Signature: g.mutb(s.Signature)})
		}
	}
	return vhexs(b), sp, g.n(3)
}
