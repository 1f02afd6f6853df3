//vp:packages omniTransaction
//vp:prop P11
package PKG

import (
	"encoding/hex"

	"github.com/blocktree/go-owcrypt"
)

// every input of the signed transaction gets the unlocking data of its own type from its own signature; everything else stays
//vp:opt budget=300 opaque=DecodeRawTransaction,checkScriptType,encodeToScript,encodeToBytes,isSegwit
func vlemma_insert(txHex string, hs []TxHash, ud []TxUnlock) {
	s, err := InsertSignatureIntoEmptyTransaction(txHex, hs, ud)
	vassert(err == nil || s == "")
	raw, e := hex.DecodeString(txHex)
	if e != nil {
		vassert(err != nil)
		vreach()
		return
	}
	t, e := DecodeRawTransaction(raw, false)
	if e != nil {
		vassert(err != nil)
		vreach()
		return
	}
	if len(t.Vins) == 0 || len(t.Vouts) == 0 || len(ud) != len(t.Vins) || len(hs) != len(t.Vins) {
		vassert(err != nil)
		vreach()
		return
	}
	wit, e := isSegwit(ud, false)
	if e != nil || wit {
		vassert(err != nil)
		vreach()
		return
	}
	for i := 0; i < len(t.Vins); i++ {
		_, redeem, ty, e := checkScriptType(ud[i].LockScript, ud[i].RedeemScript)
		if e != nil || hs[i].IsMultisig() != (ty == TypeMultiSig) || (ty == TypeP2WPKH || ty == TypeBech32) {
			vassert(err != nil)
			vreach()
			return
		}
		sc, e := hs[i].encodeToScript(redeem, false)
		vassume(ty >= TypeP2PKH && ty <= TypeMultiSig)
		if e != nil {
			vassert(err != nil)
			vreach()
			return
		}
		t.Vins[i].inType = int(ty)
		if ty == TypeMultiSig {
			t.Vins[i].scriptSig = nil
			t.Vins[i].scriptMulti = sc
			t.Vins[i].scriptPub = nil
			if wit {
				t.Vins[i].scriptPub = append([]byte{0x23, 0x22, 0x00, 0x20}, owcrypt.Hash(redeem, 0, owcrypt.HASH_ALG_SHA256)...)
			}
		} else {
			t.Vins[i].scriptSig = sc
			t.Vins[i].scriptPub = nil
			if ty == TypeP2WPKH {
				t.Vins[i].scriptPub = redeem
			}
		}
	}
	t.Witness = wit
	out, e := t.encodeToBytes(false)
	if e != nil {
		vassert(err != nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqs(s, hex.EncodeToString(out))
	vreach()
}
