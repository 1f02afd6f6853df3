//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction
//vp:prop P10
package PKG

// serialisation that a decoded transaction stands for: the fields of the decoded
// structure partition the bytes they were decoded from.
func vspec_serin(in TxIn) []byte {
	r := append([]byte{}, in.TxID...)
	r = append(r, in.Vout...)
	switch in.inType {
	case TypeP2PKH:
		r = append(r, byte(len(in.scriptSig)))
		r = append(r, in.scriptSig...)
	case TypeP2WPKH:
		r = append(r, 0x17)
		r = append(r, in.scriptPub...)
	case TypeMultiSig:
		if len(in.scriptPub) != 0 {
			r = append(r, in.scriptPub...)
		} else {
			// an unprefixed script that itself starts with 0xFD is not distinguishable afterwards
			vassume(len(in.scriptMulti) > 0xFC || in.scriptMulti[0] != 0xFD)
			if in.scriptMulti[0] != 0xFD {
				r = append(r, byte(len(in.scriptMulti)))
			}
			r = append(r, in.scriptMulti...)
		}
	default:
		r = append(r, 0)
	}
	return append(r, in.sequence...)
}

func vlemma_decode_plain(b []byte, segwit bool) {
	vassume(len(b) > 4 && b[4] != 0)
	t, err := DecodeRawTransaction(b, segwit)
	vassert((t == nil) == (err != nil))
	if err != nil {
		return
	}
	vassert(!t.Witness)
	r := append([]byte{}, t.Version...)
	r = append(r, byte(len(t.Vins)))
	for i := 0; i < len(t.Vins); i++ {
		r = append(r, vspec_serin(t.Vins[i])...)
	}
	r = append(r, byte(len(t.Vouts)))
	for i := 0; i < len(t.Vouts); i++ {
		o := t.Vouts[i]
		r = append(r, o.amount...)
		r = append(r, byte(len(o.lockScript)))
		r = append(r, o.lockScript...)
	}
	r = append(r, t.LockTime...)
	veqb(r, b)
	vreach()
}

func vlemma_decode_short(b []byte, segwit bool) {
	vassume(len(b) <= 5)
	t, err := DecodeRawTransaction(b, segwit)
	vassert(t == nil && err != nil)
	vreach()
}

func vlemma_decode_wit(b []byte) {
	vassume(len(b) > 4 && b[4] == 0)
	t, err := DecodeRawTransaction(b, false)
	vassert((t == nil) == (err != nil))
	if err != nil {
		return
	}
	vassert(t.Witness)
	vreach()
}

//vp:opt budget=300
func vlemma_decode_segwit(b []byte) {
	vassume(len(b) > 4 && b[4] == 0)
	t, err := DecodeRawTransaction(b, true)
	vassert((t == nil) == (err != nil))
	if err != nil {
		return
	}
	vassert(t.Witness)
	vreach()
}
