//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction
//vp:prop P10
package PKG

import "encoding/hex"

// reading the fields of a decoded transaction gives their values and changes nothing
func vlemma_getters(in TxIn) {
	vassume(len(in.TxID) == 32 && len(in.Vout) == 4)
	id := vcopy(in.TxID)
	s := in.GetTxID()
	veqs(s, hex.EncodeToString(vrev(vcopy(id))))
	veqb(in.TxID, id)
	v := in.GetVout()
	veqb(in.Vout, []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)})
	vreach()
}
