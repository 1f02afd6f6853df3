//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction
//vp:prop P09
package PKG

import (
	"encoding/hex"
)

func vspec_seq(lockTime uint32, rbf bool) []byte {
	if rbf {
		return []byte{0xfd, 0xff, 0xff, 0xff}
	}
	if lockTime != 0 {
		return []byte{0xfe, 0xff, 0xff, 0xff}
	}
	return []byte{0xff, 0xff, 0xff, 0xff}
}

func vspec_le32(x uint32) []byte {
	return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24)}
}

func vspec_le64(x uint64) []byte {
	return []byte{byte(x), byte(x >> 8), byte(x >> 16), byte(x >> 24), byte(x >> 32), byte(x >> 40), byte(x >> 48), byte(x >> 56)}
}

// inputs: outpoint of the i-th request, nothing else set
func vlemma_newin(vins []Vin, i int) {
	vassume(i >= 0 && i < len(vins))
	r, err := newTxInForEmptyTrans(vins)
	id, e := hex.DecodeString(vins[i].TxID)
	if e != nil || len(id) != 32 {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	if err != nil {
		vassert(r == nil)
		return
	}
	vassert(len(r) == len(vins))
	veqb(r[i].TxID, vrev(id))
	veqb(r[i].Vout, vspec_le32(vins[i].Vout))
	vassert(r[i].inType == TypeEmpty && r[i].scriptPub == nil && r[i].scriptSig == nil && r[i].scriptMulti == nil)
	vreach()
}

// with well-formed ids it never fails
func vlemma_newin_ok(vins []Vin) {
	vassume(len(vins) > 0)
	for i := 0; i < len(vins); i++ {
		id, e := hex.DecodeString(vins[i].TxID)
		vassume(e == nil && len(id) == 32)
	}
	r, err := newTxInForEmptyTrans(vins)
	vassert(err == nil)
	vassert(len(r) == len(vins))
	vreach()
}


func vmk_vins(g *vrand) []Vin {
	var r []Vin
	for i := 0; i <= g.n(3); i++ {
		r = append(r, Vin{hex.EncodeToString(g.bytes(32)), uint32(g.u64())})
	}
	if g.p(10) {
		r[g.n(len(r))].TxID = hex.EncodeToString(g.bytes(g.n(40)))
	}
	return r
}

func vgen_newin(g *vrand) ([]Vin, int) {
	v := vmk_vins(g)
	return v, g.n(len(v))
}

func vgen_newin_ok(g *vrand) []Vin { return vmk_vins(g) }
