//vp:packages bitcoincashTransaction bitcoinsvTransaction
//vp:prop P09
package PKG

import (
	"encoding/hex"
)

// the transaction: the version of the network, the requested inputs with the sequence the lock time and replaceability call for, the requested outputs
//vp:opt opaque=newTxInForEmptyTrans,newOmniTxOutForEmptyTrans
func vlemma_newtxOmni(vins []Vin, vouts []Vout, od OmniStruct, lock uint32, rbf bool, ap AddressPrefix, i int) {
	t, err := newOmniEmptyTransaction(vins, vouts, od, lock, rbf, ap)
	in, e1 := newTxInForEmptyTrans(vins)
	out, e2 := newOmniTxOutForEmptyTrans(vouts, od, ap)
	if e1 != nil || e2 != nil {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	vassert(err == nil)
	vassert(len(t.Vins) == len(in) && len(t.Vouts) == len(out) && !t.Witness)
	veqb(t.Version, vspec_ver())
	veqb(t.LockTime, vspec_le32(lock))
	if i >= 0 && i < len(in) {
		veqb(t.Vins[i].sequence, vspec_seq(lock, rbf))
		veqb(t.Vins[i].TxID, in[i].TxID)
		veqb(t.Vins[i].Vout, in[i].Vout)
		vassert(t.Vins[i].inType == in[i].inType)
		vreach()
	}
	if i >= 0 && i < len(out) {
		veqb(t.Vouts[i].amount, out[i].amount)
		veqb(t.Vouts[i].lockScript, out[i].lockScript)
		vreach()
	}
	vreach()
}

//vp:opt opaque=newOmniEmptyTransaction,encodeToBytes
func vlemma_createOmni(vins []Vin, vouts []Vout, od OmniStruct, lock uint32, rbf bool, ap AddressPrefix) {
	s, err := CreateEmptyOmniRawTransaction(vins, vouts, od, lock, rbf, ap)
	t, e := newOmniEmptyTransaction(vins, vouts, od, lock, rbf, ap)
	if e != nil {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	b, e := t.encodeToBytes(false)
	if e != nil {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	vassert(err == nil)
	veqs(s, hex.EncodeToString(b))
	vreach()
}

func vgen_newtxOmni(g *vrand) ([]Vin, []Vout, OmniStruct, uint32, bool, AddressPrefix, int) {
	ap := vmk_prefix(g)
	return vmk_vins(g), vmk_vouts(g, ap), vmk_od(g, ap), uint32(g.n(2)*g.n(1<<30)), g.p(50), ap, g.n(5)
}

func vgen_createOmni(g *vrand) ([]Vin, []Vout, OmniStruct, uint32, bool, AddressPrefix) {
	ap := vmk_prefix(g)
	return vmk_vins(g), vmk_vouts(g, ap), vmk_od(g, ap), uint32(g.n(2)*g.n(1<<30)), g.p(50), ap
}
