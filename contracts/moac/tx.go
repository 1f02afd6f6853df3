//vp:packages moacchainTransaction
//vp:prop P17
package PKG

import (
	"bytes"
	"encoding/hex"
	"errors"
	"math/big"
	"strings"

	"github.com/blocktree/go-owcrypt"
)

func vsigned(pri, msg, sig []byte, curve uint32) bool {
	pub, r := owcrypt.GenPubkey(pri, curve)
	return r == owcrypt.SUCCESS && owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

// the minimal big-endian bytes of b: without leading zeros
func vspec_isstripped(r, b []byte) {
	vassert(len(r) <= len(b))
	n := len(b) - len(r)
	vassert(len(r) == 0 || r[0] != 0)
	veqb(r, b[n:])
	for j := 0; j < n; j++ {
		vassert(b[j] == 0)
	}
}

// content of an item e, which must be its canonical form
func vspec_content(e []byte) []byte {
	vassert(len(e) >= 1)
	if e[0] < 0x80 {
		vassert(len(e) == 1)
		return e
	}
	vassert(e[0] <= 0xb7 && len(e) == 1+int(e[0])-0x80)
	vassert(len(e) != 2 || e[1] >= 0x80)
	return e[1:]
}

func vlemma_item(b []byte) {
	vassume(len(b) <= 55)
	veqb(vspec_content(getItemBytes(b)), b)
	vreach()
}

func vlemma_uint64(v uint64) {
	e := getUint64Bytes(v)
	vspec_isstripped(vspec_content(e), []byte{byte(v >> 56), byte(v >> 48), byte(v >> 40), byte(v >> 32), byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
	vreach()
}

//vp:opt opaque=getItemBytes
func vlemma_bigint(v *big.Int) {
	vassume(v != nil)
	vassume(v.Sign() >= 0)
	veqb(getBigIntBytes(v), getItemBytes(v.Bytes()))
	vreach()
}

// a list head: one byte up to 55 bytes of body, else the minimal length bytes after their count
func vlemma_head(n uint64) {
	h := getHeadBytes(SmallTag, LargeTag, n)
	if n < 56 {
		veqb(h, []byte{0xc0 + byte(n)})
		vreach()
		return
	}
	vassert(len(h) >= 2 && h[0] == 0xf7+byte(len(h)-1))
	vspec_isstripped(h[1:], []byte{byte(n >> 56), byte(n >> 48), byte(n >> 40), byte(n >> 32), byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)})
	vreach()
}

func vlemma_address(s string) {
	h, err := getAddressHashBytes(s)
	var b []byte
	bad := true
	if len(s) >= 2 && s[0] == '0' && s[1] == 'x' {
		x, e := hex.DecodeString(s[2:])
		b, bad = x, e != nil || len(x) != 20
	}
	if bad {
		vassert(err != nil && h == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(h, append([]byte{0x94}, b...))
	vreach()
}

// the unsigned transaction: each requested value in its field, chain id in the place of v, empty r and s
//vp:opt opaque=getAddressHashBytes,getUint64Bytes,getBigIntBytes
func vlemma_newtx(to string, nonce uint64, amount, limit, price *big.Int, test bool) {
	vassume(amount != nil && limit != nil && price != nil)
	t, err := NewTxStruct(to, nonce, amount, limit, price, nil, test)
	h, e := getAddressHashBytes(to)
	if e != nil || amount.Sign() < 0 || limit.Sign() < 0 || price.Sign() < 0 || amount.BitLen() > 256 || limit.BitLen() > 256 || price.BitLen() > 256 {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(t.Nonce, getUint64Bytes(nonce))
	veqb(t.SystemContract, getUint64Bytes(0))
	veqb(t.GasPrice, getBigIntBytes(price))
	veqb(t.GasLimit, getBigIntBytes(limit))
	veqb(t.Recipient, h)
	veqb(t.Amount, getBigIntBytes(amount))
	veqb(t.Payload, []byte{0x80})
	veqb(t.ShardingFlag, getUint64Bytes(0))
	veqb(t.Via, getUint64Bytes(0))
	if test {
		veqb(t.ChainID, []byte{101})
	} else {
		veqb(t.ChainID, []byte{99})
	}
	veqb(t.R, []byte{0x80})
	veqb(t.S, []byte{0x80})
	vreach()
}

func vspec_body(t *TxStruct) []byte {
	var r []byte
	r = append(r, t.Nonce...)
	r = append(r, t.SystemContract...)
	r = append(r, t.GasPrice...)
	r = append(r, t.GasLimit...)
	r = append(r, t.Recipient...)
	r = append(r, t.Amount...)
	r = append(r, t.Payload...)
	r = append(r, t.ShardingFlag...)
	r = append(r, t.Via...)
	r = append(r, t.ChainID...)
	r = append(r, t.R...)
	return append(r, t.S...)
}

//vp:opt opaque=getHeadBytes
func vlemma_bytes(t *TxStruct) {
	vassume(t != nil)
	b := vspec_body(t)
	veqb(t.ToBytes(), append(getHeadBytes(0xc0, 0xf7, uint64(len(b))), b...))
	vreach()
}

func vopq_readitem(b []byte, i int) (int, bool) {
	_, n, err := readItem(b, i)
	return n, err == nil
}

// of readItem: the piece from i to a later position inside b, or an error
func vcontract_readitem(b []byte, i int) ([]byte, int, error) {
	vassert(i >= 0)
	n, ok := vopq_readitem(b, i)
	if !ok {
		return nil, 0, errors.New("item")
	}
	vassume(n > i && n <= len(b))
	return b[i:n], n, nil
}

func vlemma_readspec(b []byte, i int) {
	vassume(i >= 0 && i <= len(b))
	r, n, err := readItem(b, i)
	if err != nil {
		vassert(r == nil && n == 0)
		return
	}
	vassert(n > i && n <= len(b))
	veqb(r, b[i:n])
	vreach()
}

// what was written is read back field by field; anything else is an error, never a crash
//vp:opt opaque=vopq_readitem contracts=readItem:vcontract_readitem
func vlemma_decode(b []byte) {
	t, err := decodeEmpty(b)
	vassert((t == nil) == (err != nil))
	if err != nil {
		return
	}
	t.R, t.S = []byte{0x80}, []byte{0x80}
	veqb(vspec_body(t), b)
	vreach()
}

// one item is read whole, whatever follows
func vlemma_readitem(b, rest []byte) {
	vassume(len(b) <= 55 && len(b) > 0)
	e := getItemBytes(b)
	in := append(append([]byte{}, e...), rest...)
	r, n, err := readItem(in, 0)
	vassert(err == nil && n == len(e))
	veqb(r, e)
	vreach()
}

//vp:opt opaque=TxStruct).ToBytes,NewTxStruct
func vlemma_create(to string, nonce uint64, amount, limit, price *big.Int, test bool) {
	vassume(amount != nil && limit != nil && price != nil)
	s, h, err := CreateEmptyRawTransactionAndHash(to, nonce, amount, limit, price, test)
	t, e := NewTxStruct(to, nonce, amount, limit, price, nil, test)
	if e != nil {
		vassert(err != nil && s == "" && h == "")
		return
	}
	vassert(err == nil)
	b := t.ToBytes()
	veqs(s, hex.EncodeToString(b))
	veqs(h, hex.EncodeToString(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_KECCAK256)))
	vreach()
}

// a signature is entered as r and s without leading zeros and v with the chain id folded in
//vp:opt opaque=getItemBytes summ=addSig
func vlemma_addsig(t *TxStruct, sig []byte, test bool) {
	vassume(t != nil && len(sig) == 65 && sig[64] <= 1)
	t.addSig(sig, test)
	v := 233 + int(sig[64])
	if test {
		v += 4
	}
	veqb(t.ChainID, []byte{0x81, byte(v)})
	vreach()
}

//vp:opt summ=addSig,vspec_isstripped
func vlemma_addsigrs(t *TxStruct, sig []byte, test bool) {
	vassume(t != nil && len(sig) == 65 && sig[64] <= 1)
	o := vcopy(sig)
	t.addSig(sig, test)
	vspec_isstripped(vspec_content(t.R), o[:32])
	vspec_isstripped(vspec_content(t.S), o[32:64])
	vreach()
}

//vp:opt opaque=serilizeS
func vlemma_sign(h string, pri []byte) {
	p := vcopy(pri)
	s, err := SignRawTransaction(h, pri)
	msg, e := hex.DecodeString(h)
	if e != nil || len(msg) != 32 || len(pri) != 32 {
		vassert(err != nil && s == nil)
		vreach()
		return
	}
	if err == nil {
		vassert(len(s) == 65 && vsigned(p, msg, s[:64], owcrypt.ECC_CURVE_SECP256K1))
		vreach()
	}
}

func vopq_v(sig []byte, test bool) []byte {
	var t TxStruct
	t.addSig(sig, test)
	return t.ChainID
}

func vopq_r(sig []byte) []byte {
	var t TxStruct
	t.addSig(sig, false)
	return t.R
}

func vopq_s(sig []byte) []byte {
	var t TxStruct
	t.addSig(sig, false)
	return t.S
}

// of addSig: only v, r and s change, and depend on the signature (and the network) alone
func vcontract_addsig(t *TxStruct, sig []byte, test bool) {
	vassert(len(sig) == 65 && sig[64] <= 1)
	t.ChainID, t.R, t.S = vopq_v(sig, test), vopq_r(sig), vopq_s(sig)
}

//vp:opt opaque=vopq_v,vopq_r,vopq_s,decodeEmpty,getHeadBytes,TxStruct).ToBytes contracts=addSig:+vcontract_addsig
func vlemma_combine(s, sig, pub string, test bool) {
	ok, r := VerifyAndCombineRawTransaction(s, sig, pub, test)
	if !ok {
		vassert(r == "")
		return
	}
	b, e1 := hex.DecodeString(s)
	g, e2 := hex.DecodeString(sig)
	vassert(e1 == nil && e2 == nil && len(g) == 65 && g[64] <= 1 && len(b) > 0)
	msg := owcrypt.Hash(b, 0, owcrypt.HASH_ALG_KECCAK256)
	p, rc := owcrypt.RecoverPubkey(g, msg, owcrypt.ECC_CURVE_SECP256K1)
	vassert(rc == owcrypt.SUCCESS && owcrypt.Verify(p, nil, msg, g[:64], owcrypt.ECC_CURVE_SECP256K1) == owcrypt.SUCCESS)
	veqs(strings.ToLower(hex.EncodeToString(owcrypt.PointCompress(p, owcrypt.ECC_CURVE_SECP256K1))), strings.ToLower(pub))
	n := 1
	if b[0] > 0xf7 {
		n += int(b[0]) - 0xf7
	}
	vassert(n <= len(b))
	vassert(bytes.Equal(b[:n], getHeadBytes(0xc0, 0xf7, uint64(len(b)-n))))
	t, e := decodeEmpty(b[n:])
	vassert(e == nil)
	t.addSig(g, test)
	veqs(r, "0x"+hex.EncodeToString(t.ToBytes()))
	vreach()
}

func vmk_big(g *vrand) *big.Int {
	v := new(big.Int).SetBytes(g.bytes(g.n(12)))
	if g.p(10) {
		v.SetBytes(g.bytes(30 + g.n(6)))
	}
	if g.p(5) {
		v.Neg(v)
	}
	return v
}

func vmk_to(g *vrand) string {
	s := "0x" + vhexs(g.bytes(20))
	if g.p(10) {
		s = string(g.mutb([]byte(s)))
	}
	if g.p(5) {
		s = g.str()
	}
	return s
}

func vgen_bigint(g *vrand) *big.Int { return vmk_big(g) }
func vgen_address(g *vrand) string  { return vmk_to(g) }

func vgen_newtx(g *vrand) (string, uint64, *big.Int, *big.Int, *big.Int, bool) {
	return vmk_to(g), g.u64(), vmk_big(g), vmk_big(g), vmk_big(g), g.p(50)
}

func vgen_create(g *vrand) (string, uint64, *big.Int, *big.Int, *big.Int, bool) { return vgen_newtx(g) }

func vmk_tx(g *vrand) []byte {
	to, n, a, l, p, t := vgen_newtx(g)
	x, err := NewTxStruct(to, n, a, l, p, nil, t)
	vassume(err == nil)
	return x.ToBytes()
}

func vgen_decode(g *vrand) []byte {
	b := vmk_tx(g)
	if b[0] > 0xf7 {
		b = b[1:]
	}
	b = b[1:]
	if g.p(30) {
		b = g.mutb(b)
	}
	return b
}

func vgen_addsig(g *vrand) (*TxStruct, []byte, bool) {
	s := append(g.bytes(64), byte(g.n(2)))
	if g.p(30) {
		s[0], s[1], s[32] = 0, 0, 0
	}
	return &TxStruct{}, s, g.p(50)
}

func vgen_addsigrs(g *vrand) (*TxStruct, []byte, bool) { return vgen_addsig(g) }

func vgen_sign(g *vrand) (string, []byte) {
	if g.p(20) {
		return g.str(), g.blob()
	}
	return vhexs(g.bytes(32)), g.bytes(32)
}

func vgen_combine(g *vrand) (string, string, string, bool) {
	b := vmk_tx(g)
	if g.p(20) {
		b = g.mutb(b)
	}
	k := g.bytes(32)
	k[0] &= 0x7f
	k[31] |= 1
	sig, v, _ := owcrypt.Signature(k, nil, owcrypt.Hash(b, 0, owcrypt.HASH_ALG_KECCAK256), owcrypt.ECC_CURVE_SECP256K1)
	pub, _ := owcrypt.GenPubkey(k, owcrypt.ECC_CURVE_SECP256K1)
	sig = append(sig, v)
	if g.p(10) {
		sig = g.mutb(sig)
	}
	return vhexs(b), vhexs(sig), vhexs(owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1)), g.p(50)
}
