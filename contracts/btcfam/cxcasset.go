//vp:packages cxcTransaction
//vp:prop P09
package PKG

import "encoding/hex"

// an asset reference: the marker, the reversed transaction id the asset was first sold in, and the amount
func vlemma_payload(to AssetTransfer) {
	got := getTransferPayload(to)
	id, err := hex.DecodeString(to.FirstSellTxID)
	if err != nil {
		vassert(got == nil)
		vreach()
		return
	}
	vassert(got != nil)
	veqb(got, append(append([]byte("spkq"), vrev(id)...), vspec_le64(to.Amount)...))
	vreach()
}

// each asset output carries the lock script of its address and the asset reference, and no coins
//vp:opt opaque=Bech32Decode,DecodeCheck,getTransferPayload
func vlemma_newasset(tos []AssetTransfer, ap AddressPrefix, i int) {
	vassume(i >= 0 && i < len(tos))
	r, err := getTransferAssetWithPayload(tos, ap)
	lock, ok := vspec_lock(tos[i].Address, ap)
	pay := getTransferPayload(tos[i])
	if !ok || pay == nil {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	if err != nil {
		vassert(r == nil)
		return
	}
	vassert(len(*r) == len(tos))
	veqb((*r)[i].amount, vspec_le64(0))
	veqb((*r)[i].lockScript, append(append(append(lock, byte(len(pay))), pay...), 0x75))
	vreach()
}

// the asset outputs come first, then the change
//vp:opt opaque=newTxInForEmptyTrans,newTxOutForEmptyTrans,getTransferAssetWithPayload
func vlemma_newassettx(vins []Vin, tos []AssetTransfer, change Vout, lock uint32, rbf bool, ap AddressPrefix, i int) {
	t, err := newEmptyAssetTransaction(vins, tos, change, lock, rbf, ap)
	in, e1 := newTxInForEmptyTrans(vins)
	as, e3 := getTransferAssetWithPayload(tos, ap)
	out, e2 := newTxOutForEmptyTrans([]Vout{change}, ap)
	if e1 != nil || e2 != nil || e3 != nil {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	vassert(err == nil)
	vassert(len(t.Vins) == len(in) && len(t.Vouts) == len(*as)+len(out) && !t.Witness)
	veqb(t.Version, vspec_ver())
	veqb(t.LockTime, vspec_le32(lock))
	if i >= 0 && i < len(in) {
		veqb(t.Vins[i].sequence, vspec_seq(lock, rbf))
		veqb(t.Vins[i].TxID, in[i].TxID)
		veqb(t.Vins[i].Vout, in[i].Vout)
		vassert(t.Vins[i].inType == in[i].inType)
		vreach()
	}
	if i >= 0 && i < len(*as) {
		veqb(t.Vouts[i].amount, (*as)[i].amount)
		veqb(t.Vouts[i].lockScript, (*as)[i].lockScript)
		vreach()
	}
	if i >= 0 && i < len(out) {
		veqb(t.Vouts[len(*as)+i].amount, out[i].amount)
		veqb(t.Vouts[len(*as)+i].lockScript, out[i].lockScript)
		vreach()
	}
	vreach()
}

//vp:opt opaque=newEmptyAssetTransaction,encodeToBytes
func vlemma_createasset(vins []Vin, tos []AssetTransfer, change Vout, lock uint32, rbf bool, ap AddressPrefix) {
	s, err := CreateEmptyAssetRawTransaction(vins, tos, change, lock, rbf, ap)
	t, e := newEmptyAssetTransaction(vins, tos, change, lock, rbf, ap)
	if e != nil {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	b, e := t.encodeToBytes(false)
	if e != nil {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	vassert(err == nil)
	veqs(s, hex.EncodeToString(b))
	vreach()
}

func vmk_assets(g *vrand, ap AddressPrefix) []AssetTransfer {
	var r []AssetTransfer
	for i := 0; i <= g.n(3); i++ {
		r = append(r, AssetTransfer{Address: vmk_addr(g, ap), FirstSellTxID: hex.EncodeToString(g.bytes(16)), Amount: g.u64()})
	}
	return r
}

func vgen_newasset(g *vrand) ([]AssetTransfer, AddressPrefix, int) {
	ap := vmk_prefix(g)
	v := vmk_assets(g, ap)
	return v, ap, g.n(len(v))
}

func vgen_newassettx(g *vrand) ([]Vin, []AssetTransfer, Vout, uint32, bool, AddressPrefix, int) {
	ap := vmk_prefix(g)
	return vmk_vins(g), vmk_assets(g, ap), vmk_vouts(g, ap)[0], uint32(g.n(2) * g.n(1<<30)), g.p(50), ap, g.n(5)
}

func vgen_createasset(g *vrand) ([]Vin, []AssetTransfer, Vout, uint32, bool, AddressPrefix) {
	ap := vmk_prefix(g)
	return vmk_vins(g), vmk_assets(g, ap), vmk_vouts(g, ap)[0], uint32(g.n(2) * g.n(1<<30)), g.p(50), ap
}
