//vp:packages omniTransaction
// generators: transactions that were created, signed and assembled by the code itself (no part of any proof)
package PKG

import (
	"encoding/hex"

	"github.com/blocktree/go-owcrypt"
)

var _ = hex.EncodeToString
var _ = owcrypt.Hash

func vmk_key(g *vrand) ([]byte, []byte) {
	k := g.bytes(32)
	k[0] &= 0x7f
	k[31] |= 1
	pub, _ := owcrypt.GenPubkey(k, owcrypt.ECC_CURVE_SECP256K1)
	return k, owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1)
}

// hashes with signatures for n inputs; kind 0: key hash, 1: witness key hash, 2: two of three
func vmk_signing(g *vrand, n int, sw bool, kind int) (string, []TxHash, []TxUnlock, AddressPrefix) {
	ap := vmk_prefix(g)
	var t Transaction
	t.Version, t.LockTime = g.bytes(4), g.bytes(4)
	var ud []TxUnlock
	var keys [][][]byte
	for i := 0; i < n; i++ {
		v := vmk_txin(g)
		t.Vins = append(t.Vins, v)
		var ks, pubs [][]byte
		for j := 0; j < 3; j++ {
			k, p := vmk_key(g)
			ks, pubs = append(ks, k), append(pubs, p)
		}
		h := hex.EncodeToString(owcrypt.Hash(pubs[0], 0, owcrypt.HASH_ALG_HASH160))
		u := TxUnlock{LockScript: "76a914" + h + "88ac", Amount: uint64(1 + g.n(1<<30)), SigType: SigHashAll}
		if kind == 1 {
			u.LockScript = "0014" + h
		}
		if kind == 2 {
			_, r, _ := CreateMultiSig(2, pubs, ap)
			rb, _ := hex.DecodeString(r)
			u.RedeemScript = r
			u.LockScript = "a914" + hex.EncodeToString(owcrypt.Hash(rb, 0, owcrypt.HASH_ALG_HASH160)) + "87"
		}
		ud = append(ud, u)
		keys = append(keys, ks)
	}
	for i := 0; i <= g.n(3); i++ {
		t.Vouts = append(t.Vouts, TxOut{g.bytes(8), g.bytes(1 + g.n(30))})
	}
	b, err := t.encodeToBytes(false)
	vassume(err == nil)
	tx := hex.EncodeToString(b)
	hs, err := CreateRawTransactionHashForSig(tx, ud, ap)
	vassume(err == nil)
	for i := range hs {
		if hs[i].Normal != nil {
			sp, err := SignRawTransactionHash(hs[i].Hash, keys[i][0])
			vassume(err == nil)
			hs[i].Normal.SigPub = *sp
		}
		skip := g.n(3)
		for j := range hs[i].Multi {
			if j == skip {
				continue
			}
			sp, err := SignRawTransactionHash(hs[i].Hash, keys[i][j])
			vassume(err == nil)
			hs[i].Multi[j].SigPub = *sp
		}
	}
	return tx, hs, ud, ap
}

func vmk_signed(g *vrand, n int, kind int) (string, []TxUnlock, AddressPrefix) {
	sw := false
	tx, hs, ud, ap := vmk_signing(g, n, sw, kind)
	s, err := InsertSignatureIntoEmptyTransaction(tx, hs, ud)
	vassume(err == nil)
	b, _ := hex.DecodeString(s)
	switch g.n(4) {
	case 0:
		b[g.n(len(b))] ^= byte(1 << uint(g.n(8)))
	case 1:
		ud[g.n(n)].Amount++
	}
	return hex.EncodeToString(b), ud, ap
}

func vgen_verify_one(g *vrand) (string, []TxUnlock, AddressPrefix) { return vmk_signed(g, 1, 0) }
func vgen_verify_two(g *vrand) (string, []TxUnlock, AddressPrefix) { return vmk_signed(g, 2, 0) }
func vgen_verify_multi(g *vrand) (string, []TxUnlock, AddressPrefix) {
	return vmk_signed(g, 1, 2)
}

func vgen_insert(g *vrand) (string, []TxHash, []TxUnlock) {
	sw := false
	tx, hs, ud, _ := vmk_signing(g, 1+g.n(2), sw, g.n(3))
	if g.p(20) {
		ud[g.n(len(ud))] = vmk_unlock(g)
	}
	return tx, hs, ud
}

func vgen_signhash(g *vrand) (string, []byte) {
	k, _ := vmk_key(g)
	return hex.EncodeToString(g.bytes(32 - g.n(2)*g.n(2))), k
}

func vgen_scriptone(g *vrand) (TxHash, []byte, bool) {
	k, p := vmk_key(g)
	sp, _ := SignRawTransactionHash(hex.EncodeToString(g.bytes(32)), k)
	sp.Pubkey = p
	if g.p(20) {
		sp.Signature = g.bytes(g.n(70))
	}
	return TxHash{hex.EncodeToString(g.bytes(32)), 0, &NormalTx{"", 1, *sp}, nil}, nil, g.p(50)
}
