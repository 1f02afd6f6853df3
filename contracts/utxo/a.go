//vp:packages aliencoinTransaction
//vp:prop P15
package PKG

import "encoding/hex"

const vspec_p2pkh, vspec_p2sh = 0x17, 0x30

func vspec_head(t TxStruct) []byte { return append([]byte{}, t.Version...) }

// the created structure: version, one input per request, one output per request, in order, then the lock time
//vp:opt opaque=NewTxIn,NewTxOut
func vlemma_newtx(in []Vin, out []Vout, lt uint32, i int) {
	t, err := NewTxStruct(in, out, lt)
	if err != nil {
		vassert(t == nil)
		return
	}
	vassert(len(t.Vin) == len(in) && len(t.Vout) == len(out) && len(in) <= 252 && len(out) <= 252)
	veqb(t.Version, []byte{1, 0, 0, 0})
	veqb(t.LockTime, []byte{byte(lt), byte(lt >> 8), byte(lt >> 16), byte(lt >> 24)})
	if i >= 0 && i < len(in) {
		x, e := in[i].NewTxIn()
		vassert(e == nil)
		veqb(t.Vin[i].TxID, x.TxID)
		veqb(t.Vin[i].Vout, x.Vout)
		veqb(t.Vin[i].Sequence, x.Sequence)
		veqb(t.Vin[i].LockScript, x.LockScript)
		vreach()
	}
	if i >= 0 && i < len(out) {
		x, e := out[i].NewTxOut()
		vassert(e == nil)
		veqb(t.Vout[i].Amount, x.Amount)
		veqb(t.Vout[i].LockScript, x.LockScript)
		vreach()
	}
}

// what is handed out to be signed: the structure's bytes and the lock scripts, and the structure's digests
//vp:opt opaque=NewTxStruct,TxStruct).ToBytes,vopq_gethash contracts=GetHash:+vcontract_gethash
func vlemma_create(in []Vin, out []Vout, lt uint32, i int) {
	s, h, err := CreateEmptyTransactionAndHash(in, out, lt)
	t, e := NewTxStruct(in, out, lt)
	if e != nil {
		vassert(err != nil && s == "" && h == nil)
		vreach()
		return
	}
	g, e := t.GetHash()
	if e != nil {
		return
	}
	vassert(err == nil && len(h) == len(g))
	r := hex.EncodeToString(t.ToBytes())
	for k := 0; k < len(in); k++ {
		r += ":" + in[k].LockScript
	}
	veqs(s, r)
	if i >= 0 && i < len(h) {
		veqs(h[i], g[i])
	}
	vreach()
}
