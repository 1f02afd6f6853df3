//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction
//vp:prop P09
package PKG

import (
	"encoding/hex"
)

// the transaction: the version of the network, the requested inputs with the sequence the lock time and replaceability call for, the requested outputs
//vp:opt opaque=newTxInForEmptyTrans,newTxOutForEmptyTrans
func vlemma_newtx(vins []Vin, vouts []Vout, lock uint32, rbf bool, ap AddressPrefix, i int) {
	t, err := newEmptyTransaction(vins, vouts, lock, rbf, ap)
	in, e1 := newTxInForEmptyTrans(vins)
	out, e2 := newTxOutForEmptyTrans(vouts, ap)
	if e1 != nil || e2 != nil {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	vassert(err == nil)
	vassert(len(t.Vins) == len(in) && len(t.Vouts) == len(out) && !t.Witness)
	veqb(t.Version, vspec_ver())
	veqb(t.LockTime, vspec_le32(lock))
	if i >= 0 && i < len(in) {
		veqb(t.Vins[i].sequence, vspec_seq(lock, rbf))
		veqb(t.Vins[i].TxID, in[i].TxID)
		veqb(t.Vins[i].Vout, in[i].Vout)
		vassert(t.Vins[i].inType == in[i].inType)
		vreach()
	}
	if i >= 0 && i < len(out) {
		veqb(t.Vouts[i].amount, out[i].amount)
		veqb(t.Vouts[i].lockScript, out[i].lockScript)
		vreach()
	}
	vreach()
}

//vp:opt opaque=newEmptyTransaction,encodeToBytes
func vlemma_create(vins []Vin, vouts []Vout, lock uint32, rbf bool, ap AddressPrefix) {
	s, err := CreateEmptyRawTransaction(vins, vouts, lock, rbf, ap)
	t, e := newEmptyTransaction(vins, vouts, lock, rbf, ap)
	if e != nil {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	b, e := t.encodeToBytes(false)
	if e != nil {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	vassert(err == nil)
	veqs(s, hex.EncodeToString(b))
	vreach()
}

func vgen_newtx(g *vrand) ([]Vin, []Vout, uint32, bool, AddressPrefix, int) {
	ap := vmk_prefix(g)
	return vmk_vins(g), vmk_vouts(g, ap), uint32(g.n(2)*g.n(1<<30)), g.p(50), ap, g.n(5)
}

func vgen_create(g *vrand) ([]Vin, []Vout, uint32, bool, AddressPrefix) {
	ap := vmk_prefix(g)
	return vmk_vins(g), vmk_vouts(g, ap), uint32(g.n(2)*g.n(1<<30)), g.p(50), ap
}
