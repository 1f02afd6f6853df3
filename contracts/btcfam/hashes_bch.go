//vp:packages bitcoincashTransaction
//vp:deps addressEncoder
//vp:prop P08
package PKG

import (
	"encoding/hex"
)

// what the lemma on script classification establishes, used at its call sites
func vopq_scripttype(lock, redeem string) ([]byte, []byte, byte, error) {
	return checkScriptType(lock, redeem)
}

func vcontract_scripttype(lock, redeem string) ([]byte, []byte, byte, error) {
	s, r, k, err := vopq_scripttype(lock, redeem)
	if err == nil {
		vassume((k == 1 && len(s) >= 25) || (k == 2 && len(s) >= 23 && len(r) == 22) || (k == 3 && len(s) == 22) || (k == 4 && len(s) >= 23 && len(r) >= 37))
	}
	return s, r, k, err
}

// the digest handed out for input i is the double SHA-256 of that input's signing message (bounded: two inputs)
//vp:opt budget=300 bounded=two-inputs opaque=EncodeCheck,addressEncoder.AddressEncode,Bech32Encode,getMultiDetails,encodeToBytes,getSegwitBytesForSig,vopq_scripttype contracts=checkScriptType:vcontract_scripttype
func vlemma_hashes2(t Transaction, v0, v1 TxIn, u0, u1 TxUnlock, sw bool, ap AddressPrefix) {
	t.Vins = []TxIn{v0, v1}
	hs, err := t.getHashesForSig([]TxUnlock{u0, u1}, sw, ap)
	if err != nil {
		vassert(hs == nil)
		return
	}
	vassert(len(hs) == 2)
	v0.setEmpty()
	v1.setEmpty()
	vhash_of(t, v0, v1, 0, u0, sw, hs[0])
	vhash_of(t, v0, v1, 1, u1, sw, hs[1])
	vreach()
}

func vhash_of(t Transaction, v0, v1 TxIn, i int, u TxUnlock, sw bool, h TxHash) {
	t.Vins = []TxIn{v0, v1}
	lock, redeem, k, e := vcontract_scripttype(u.LockScript, u.RedeemScript)
	vassert(e == nil)
	b, e2 := t.getBytesForSig(lock, redeem, k, u.SigType, i, u.Amount, sw)
	vassert(e2 == nil)
	veqs(h.Hash, hex.EncodeToString(vspec_dhash(b)))
	if k != 4 {
		vassert(h.NRequired == 0 && h.Normal != nil && len(h.Multi) == 0)
		vassert(h.Normal.SigType == u.SigType && len(h.Normal.SigPub.Signature) == 0 && len(h.Normal.SigPub.Pubkey) == 0)
	}
}

func vgen_hashes2(g *vrand) (Transaction, TxIn, TxIn, TxUnlock, TxUnlock, bool, AddressPrefix) {
	return vmk_tx(g), vmk_txin(g), vmk_txin(g), vmk_unlock(g), vmk_unlock(g), g.p(50), AddressPrefix{P2PKHPrefix: []byte{0}, P2WPKHPrefix: []byte{5}, Bech32Prefix: "bc"}
}
