//vp:packages zencashTransaction
//vp:prop P11
package PKG

import (
	"encoding/hex"
)

// every input of the signed transaction gets the unlocking data of its own type from its own signature; everything else stays
//vp:opt budget=300 opaque=DecodeRawTransaction,encodeToScript,encodeToBytes
func vlemma_insert(txHex string, hs []TxHash, ud []TxUnlock, sw bool) {
	s, err := InsertSignatureIntoEmptyTransaction(txHex, hs, ud, sw)
	vassert(err == nil || s == "")
	raw, e := hex.DecodeString(txHex)
	if e != nil {
		vassert(err != nil)
		vreach()
		return
	}
	t, e := DecodeRawTransaction(raw, sw)
	if e != nil {
		vassert(err != nil)
		vreach()
		return
	}
	if len(t.Vins) == 0 || len(t.Vouts) == 0 || len(ud) != len(t.Vins) || len(hs) != len(t.Vins) {
		vassert(err != nil)
		vreach()
		return
	}
	for i := 0; i < len(t.Vins); i++ {
		sc, e := hs[i].encodeToScript(nil, sw)
		if e != nil {
			vassert(err != nil)
			vreach()
			return
		}
		t.Vins[i].inType = TypeP2PKH
		t.Vins[i].scriptPub = nil
		t.Vins[i].scriptSig = sc
	}
	t.Witness = false
	out, e := t.encodeToBytes(sw)
	if e != nil {
		vassert(err != nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqs(s, hex.EncodeToString(out))
	vreach()
}
