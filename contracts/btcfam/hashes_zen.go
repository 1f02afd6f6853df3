//vp:packages zencashTransaction
//vp:prop P08
package PKG

import (
	"encoding/hex"
)

// the digest handed out for input i is the double SHA-256 of that input's signing message (bounded: two inputs)
//vp:opt budget=300 bounded=two-inputs opaque=EncodeCheck,Bech32Encode,getMultiDetails,encodeToBytes,getSegwitBytesForSig
func vlemma_hashes2(t Transaction, v0, v1 TxIn, u0, u1 TxUnlock, sw bool, ap AddressPrefix) {
	t.Vins = []TxIn{v0, v1}
	hs, err := t.getHashesForSig([]TxUnlock{u0, u1}, sw, ap)
	if err != nil {
		vassert(hs == nil)
		return
	}
	vassert(len(hs) == 2)
	v0.setEmpty()
	v1.setEmpty()
	vhash_of(t, v0, v1, 0, u0, sw, hs[0])
	vhash_of(t, v0, v1, 1, u1, sw, hs[1])
	vreach()
}

func vhash_of(t Transaction, v0, v1 TxIn, i int, u TxUnlock, sw bool, h TxHash) {
	t.Vins = []TxIn{v0, v1}
	lock, e := hex.DecodeString(u.LockScript)
	vassert(e == nil)
	vassert(len(lock) >= 25 && lock[0] == 0x76 && lock[1] == 0xa9 && lock[2] == 0x14)
	b, e2 := t.getBytesForSig(lock, nil, 1, u.SigType, i, u.Amount, sw)
	vassert(e2 == nil)
	veqs(h.Hash, hex.EncodeToString(vspec_dhash(b)))
	vassert(h.NRequired == 0 && h.Normal != nil && len(h.Multi) == 0)
	vassert(h.Normal.SigType == u.SigType && len(h.Normal.SigPub.Signature) == 0)
}

func vgen_hashes2(g *vrand) (Transaction, TxIn, TxIn, TxUnlock, TxUnlock, bool, AddressPrefix) {
	return vmk_tx(g), vmk_txin(g), vmk_txin(g), vmk_unlock(g), vmk_unlock(g), g.p(50), AddressPrefix{P2PKHPrefix: []byte{0}, P2WPKHPrefix: []byte{5}, Bech32Prefix: "bc"}
}
