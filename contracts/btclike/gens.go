//vp:packages btcLikeTxDriver
// generators: transactions created, signed and assembled by the code itself (no part of any proof)
package btcLikeTxDriver

import (
	"encoding/hex"

	owcrypt "github.com/blocktree/go-owcrypt"
)

var _ = hex.EncodeToString
var _ = owcrypt.Hash

func vmk_key(g *vrand) ([]byte, []byte) {
	k := g.bytes(32)
	k[0] &= 0x7f
	k[31] |= 1
	pub, _ := owcrypt.GenPubkey(k, owcrypt.ECC_CURVE_SECP256K1)
	return k, owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1)
}

func vmk_addr(g *vrand) string {
	switch g.n(8) {
	case 0:
		return Bech32Encode("tb", BTCBech32Alphabet, g.bytes(20))
	case 1:
		return EncodeCheck(0xc4, g.bytes(20))
	case 2:
		return EncodeCheck(byte(g.n(256)), g.bytes(20))
	case 3:
		return g.str()
	case 4:
		return "tb1" + g.str()
	}
	return EncodeCheck(0x6f, g.bytes(20))
}

func vmk_vin(g *vrand) Vin {
	n := 32
	if g.p(5) {
		n = g.n(40)
	}
	s := vhexs(g.bytes(n))
	if g.p(3) {
		s = g.str()
	}
	return Vin{s, uint32(g.u64())}
}

func vmk_reqs(g *vrand) ([]Vin, []Vout) {
	var in []Vin
	var out []Vout
	for i := 0; i <= g.n(4); i++ {
		in = append(in, vmk_vin(g))
	}
	for i := 0; i <= g.n(4); i++ {
		out = append(out, Vout{vmk_addr(g), g.u64()})
	}
	return in, out
}

func vmk_script(g *vrand) []byte {
	switch g.n(6) {
	case 0:
		return append(append([]byte{0x76, 0xa9, 20}, g.bytes(20)...), 0x88, 0xac)
	case 1:
		return append(append([]byte{0xa9, 20}, g.bytes(20)...), 0x87)
	case 2:
		return append([]byte{0, 20}, g.bytes(20)...)
	case 3:
		k := append(append([]byte{byte(0x50 + g.n(18)), 33}, g.bytes(33)...), byte(0x50+g.n(18)), 0xae)
		return k
	case 4:
		return append(g.bytes(g.n(260)), 0xae)
	}
	return g.bytes(g.n(30))
}

func vmk_tx(g *vrand, n int) Transaction {
	t := Transaction{Version: g.bytes(4), LockTime: g.bytes(4)}
	for i := 0; i < n; i++ {
		in := TxIn{g.bytes(32), g.bytes(4), nil, g.bytes(4)}
		if g.p(30) {
			in.ScriptPubkeySignature = vmk_script(g)
		}
		t.Vins = append(t.Vins, in)
	}
	for i := 0; i <= g.n(3); i++ {
		t.Vouts = append(t.Vouts, TxOut{g.bytes(8), vmk_script(g)})
	}
	if g.p(40) {
		for i := 0; i < n; i++ {
			w := TxWitness{}
			if g.p(70) {
				w = TxWitness{g.bytes(64), g.bytes(33)}
			}
			t.Witness = append(t.Witness, w)
		}
	}
	return t
}

// unlock data of n inputs with their keys; kinds mixed
func vmk_unlock(g *vrand, n int) []TxUnlock {
	var r []TxUnlock
	for i := 0; i < n; i++ {
		k, p := vmk_key(g)
		h := owcrypt.Hash(p, 0, owcrypt.HASH_ALG_HASH160)
		u := TxUnlock{PrivateKey: k, Amount: uint64(g.n(1 << 30))}
		switch g.n(10) {
		case 0, 1, 2:
			u.LockScript = "0014" + vhexs(h)
		case 3, 4, 5:
			u.RedeemScript = "0014" + vhexs(h)
			b, _ := hex.DecodeString(u.RedeemScript)
			u.LockScript = "a914" + vhexs(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_HASH160)) + "87"
		case 6:
			u.LockScript = vhexs(vmk_script(g))
			u.RedeemScript = vhexs(vmk_script(g))
		default:
			u.LockScript = "76a914" + vhexs(h) + "88ac"
		}
		r = append(r, u)
	}
	return r
}

func vmk_empty(g *vrand, n int) string {
	t := vmk_tx(g, n)
	t.Witness = nil
	for i := range t.Vins {
		t.Vins[i].ScriptPubkeySignature = nil
	}
	if g.p(5) {
		t = vmk_tx(g, n)
	}
	b, err := t.encodeToBytes()
	vassume(err == nil)
	if g.p(5) {
		b = g.mutb(b)
	}
	return vhexs(b)
}

// an unsigned transaction, its signatures and unlock data
func vmk_signing(g *vrand, n int) (string, []SignaturePubkey, []TxUnlock) {
	u := vmk_unlock(g, n)
	s := vmk_empty(g, n)
	h, err := CreateRawTransactionHashForSig(s, append([]TxUnlock{}, u...))
	vassume(err == nil)
	sp, err := SignRawTransactionHash(h, u)
	vassume(err == nil)
	return s, sp, u
}

func vgen_outs(g *vrand) ([]Vout, int)       { _, o := vmk_reqs(g); return o, g.n(len(o)) }
func vgen_outok(g *vrand) (string, uint64)   { return vmk_addr(g), g.u64() }
func vgen_ins(g *vrand) ([]Vin, int)         { i, _ := vmk_reqs(g); return i, g.n(len(i)) }
func vgen_inok(g *vrand) ([]byte, uint32)    { return g.bytes(32), uint32(g.u64()) }
func vgen_scripttype(g *vrand) []byte        { return vmk_script(g) }
func vgen_scriptcode(g *vrand) []byte        { return vmk_script(g) }
func vgen_scriptcodetotal(g *vrand) string   { return vhexs(vmk_script(g)) }
func vgen_enc(g *vrand) Transaction          { return vmk_tx(g, 1+g.n(4)) }
func vgen_encfit(g *vrand) (Transaction, int) { return vmk_tx(g, 1+g.n(4)), g.n(4) }
func vgen_ismulti(g *vrand) Transaction      { return vmk_tx(g, 1) }
func vgen_newtx(g *vrand) ([]Vin, []Vout, uint32, bool, int) {
	i, o := vmk_reqs(g)
	return i, o, uint32(g.n(2) * g.n(1<<30)), g.p(50), g.n(5)
}
func vgen_create(g *vrand) ([]Vin, []Vout, uint32, bool) {
	i, o := vmk_reqs(g)
	return i, o, uint32(g.n(2) * g.n(1<<30)), g.p(50)
}
func vmk_multi(g *vrand) []byte {
	n := 1 + g.n(7)
	var ks [][]byte
	for i := 0; i < n; i++ {
		ks = append(ks, g.bytes(33))
	}
	return vspec_redeem(byte(1+g.n(n)), ks)
}
func vgen_encmulti(g *vrand) Transaction {
	t := vmk_tx(g, 1)
	t.Vins[0].ScriptPubkeySignature = vmk_multi(g)
	t.Witness = nil
	for i := 0; i < g.n(6); i++ {
		t.Witness = append(t.Witness, TxWitness{g.bytes(64), g.bytes(33)})
	}
	return t
}
func vgen_decode(g *vrand) []byte {
	t := vmk_tx(g, 1+g.n(3))
	b, err := t.encodeToBytes()
	vassume(err == nil)
	if g.p(30) {
		b = g.mutb(b)
	}
	return b
}
func vgen_decodefields(g *vrand) ([]byte, int) { return vgen_decode(g), g.n(4) }
func vgen_getters(g *vrand) TxIn               { return vmk_tx(g, 1).Vins[0] }
func vgen_segwitbytes(g *vrand) (Transaction, TxUnlock, []byte, []byte, []byte) {
	u := vmk_unlock(g, 1)[0]
	if g.p(70) {
		u.RedeemScript = vhexs(vmk_script(g))
	}
	return vmk_tx(g, 1+g.n(3)), u, g.bytes(32), g.bytes(4), g.bytes(4)
}
func vgen_hash1(g *vrand) (Transaction, []TxUnlock) { return vmk_tx(g, 1), vmk_unlock(g, 1) }
func vgen_hash2(g *vrand) (Transaction, []TxUnlock) { return vmk_tx(g, 2), vmk_unlock(g, 2) }
func vgen_createhash(g *vrand) (string, []TxUnlock, int) {
	n := 1 + g.n(3)
	return vmk_empty(g, n), vmk_unlock(g, n), g.n(n)
}
func vgen_signhash(g *vrand) ([]string, []TxUnlock) {
	n := 1 + g.n(3)
	var h []string
	for i := 0; i < n; i++ {
		h = append(h, vhexs(g.bytes(32)))
	}
	return h, vmk_unlock(g, n)
}
func vgen_insert1(g *vrand) (string, []SignaturePubkey, []TxUnlock) { return vmk_signing(g, 1) }
func vgen_insert2(g *vrand) (string, []SignaturePubkey, []TxUnlock) {
	s, sp, u := vmk_signing(g, 2)
	if g.p(10) {
		sp = sp[:g.n(2)]
	}
	return s, sp, u
}
func vgen_insertmulti(g *vrand) (string, []SignaturePubkey, []TxUnlock, int) {
	r := vmk_multi(g)
	n := int(r[0]) - 0x50
	if g.p(20) {
		n = 1 + g.n(5)
	}
	var sp []SignaturePubkey
	for i := 0; i < n; i++ {
		sp = append(sp, SignaturePubkey{g.bytes(64), g.bytes(33)})
	}
	return vmk_empty(g, 1), sp, []TxUnlock{{LockScript: "a914" + vhexs(g.bytes(20)) + "87", RedeemScript: vhexs(r)}}, g.n(n)
}
func vgen_ismultisig(g *vrand) (string, string) { return vhexs(vmk_script(g)), vhexs(vmk_script(g)) }
func vgen_verifyhashes(g *vrand) ([][]byte, []SignaturePubkey, int) {
	n := 1 + g.n(3)
	var h [][]byte
	u := vmk_unlock(g, n)
	for i := 0; i < n; i++ {
		h = append(h, g.bytes(32))
	}
	sp, err := calcSignaturePubkey(h, u)
	vassume(err == nil)
	if g.p(30) {
		h[g.n(n)][g.n(32)] ^= byte(1 << uint(g.n(8)))
	}
	return h, sp, g.n(n)
}
func vmk_verify(g *vrand, n int) (string, []TxUnlock) {
	s, sp, u := vmk_signing(g, n)
	r, err := InsertSignatureIntoEmptyTransaction(s, sp, append([]TxUnlock{}, u...))
	vassume(err == nil)
	if g.p(20) {
		b, _ := hex.DecodeString(r)
		r = vhexs(g.mutb(b))
	}
	return r, u
}
func vgen_verify1(g *vrand) (string, []TxUnlock) { return vmk_verify(g, 1) }
func vgen_verify2(g *vrand) (string, []TxUnlock) { return vmk_verify(g, 2) }
func vgen_verifycount(g *vrand) (string, []TxUnlock) {
	s, u := vmk_verify(g, 2)
	return s, u[:1]
}
func vgen_createmulti(g *vrand) (byte, [][]byte, int) {
	n := 1 + g.n(18)
	var ks [][]byte
	for i := 0; i < n; i++ {
		l := 33
		if g.p(10) {
			l = 65
		}
		if g.p(2) {
			l = g.n(70)
		}
		ks = append(ks, g.bytes(l))
	}
	return byte(g.n(19)), ks, g.n(n)
}
