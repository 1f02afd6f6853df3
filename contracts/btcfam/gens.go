//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction
// generators for the search on the compiled code (no part of any proof)
package PKG

import (
	"encoding/hex"
)

var _ = hex.EncodeToString

func vmk_txin(g *vrand) TxIn {
	var v TxIn
	v.TxID, v.Vout, v.sequence = g.bytes(32), g.bytes(4), g.bytes(4)
	return v
}

func vmk_tx(g *vrand) Transaction {
	var t Transaction
	t.Version, t.LockTime = g.bytes(4), g.bytes(4)
	for i := 0; i <= g.n(3); i++ {
		t.Vouts = append(t.Vouts, TxOut{g.bytes(8), g.bytes(1 + g.n(30))})
	}
	for i := 0; i <= g.n(3); i++ {
		t.Vins = append(t.Vins, vmk_txin(g))
	}
	return t
}

func vmk_unlock(g *vrand) TxUnlock {
	h := hex.EncodeToString(g.bytes(20))
	u := TxUnlock{LockScript: "76a914" + h + "88ac", Amount: uint64(g.n(1 << 30)) + 1, SigType: SigHashAll}
	switch g.n(5) {
	case 0:
		u.LockScript = "0014" + h
	case 1:
		u.LockScript, u.RedeemScript = "a914"+h+"87", "0014"+hex.EncodeToString(g.bytes(20))
	case 2:
		r := "51"
		n := 1 + g.n(3)
		for i := 0; i < n; i++ {
			r += "2102" + hex.EncodeToString(g.bytes(32))
		}
		u.LockScript, u.RedeemScript = "a914"+h+"87", r+hex.EncodeToString([]byte{byte(0x50 + n), 0xae})
	}
	return u
}
