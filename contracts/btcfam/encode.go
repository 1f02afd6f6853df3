//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction
//vp:prop P07
package PKG

// ---- wire format of one input / output / transaction (specification) ----

func vspec_slen(n int) []byte {
	if n < 253 {
		return []byte{byte(n)}
	}
	return []byte{253, byte(n), byte(n >> 8)}
}

func vspec_in(in TxIn, segwit bool) []byte {
	r := append([]byte{}, in.TxID...)
	r = append(r, in.Vout...)
	switch in.inType {
	case TypeEmpty:
		r = append(r, vspec_slen(len(in.scriptPub))...)
		r = append(r, in.scriptPub...)
	case TypeP2PKH:
		r = append(r, byte(len(in.scriptSig)))
		r = append(r, in.scriptSig...)
	case TypeP2WPKH:
		r = append(r, 0x17, 0x16)
		r = append(r, in.scriptPub...)
	case TypeBech32:
		r = append(r, 0)
	case TypeMultiSig:
		if segwit {
			r = append(r, in.scriptPub...)
		} else {
			r = append(r, in.scriptMulti...)
		}
	}
	return append(r, in.sequence...)
}

func vspec_inok(in TxIn) bool {
	return len(in.TxID) == 32 && len(in.Vout) == 4 && len(in.sequence) == 4 && in.inType >= TypeEmpty && in.inType <= TypeMultiSig
}

func vlemma_txin(in TxIn, segwit bool) {
	b, err := in.toBytes(segwit)
	if err != nil {
		vassert(!vspec_inok(in))
		vassert(b == nil)
		return
	}
	vassert(vspec_inok(in))
	veqb(b, vspec_in(in, segwit))
	vreach()
}

func vlemma_txout(o TxOut) {
	b, err := o.toBytes()
	if err != nil {
		vassert(b == nil)
		vassert(len(o.amount) != 8 || len(o.lockScript) == 0 || len(o.lockScript) > 252)
		return
	}
	vassert(len(o.amount) == 8 && len(o.lockScript) > 0 && len(o.lockScript) < 253)
	r := append([]byte{}, o.amount...)
	r = append(r, byte(len(o.lockScript)))
	r = append(r, o.lockScript...)
	veqb(b, r)
	vreach()
}

func vspec_wit(in TxIn) []byte {
	switch in.inType {
	case TypeP2PKH:
		return []byte{0}
	case TypeP2WPKH, TypeBech32:
		return append([]byte{2}, in.scriptSig...)
	}
	return append([]byte{4}, in.scriptMulti...)
}

func vlemma_wit(in TxIn) {
	b, err := in.toSegwitBytes()
	if err != nil {
		vassert(in.inType < TypeP2PKH || in.inType > TypeMultiSig)
		return
	}
	veqb(b, vspec_wit(in))
	vreach()
}

func vlemma_enctx(t Transaction, segwit bool) {
	b, err := t.encodeToBytes(segwit)
	if err != nil {
		return
	}
	vassert(len(t.Version) == 4 && len(t.LockTime) == 4)
	vassert(len(t.Vins) > 0 && len(t.Vins) < 253 && len(t.Vouts) > 0 && len(t.Vouts) < 253)
	r := append([]byte{}, t.Version...)
	if t.Witness {
		r = append(r, 0, 1)
	}
	r = append(r, byte(len(t.Vins)))
	for i := 0; i < len(t.Vins); i++ {
		r = append(r, vspec_in(t.Vins[i], segwit)...)
	}
	r = append(r, byte(len(t.Vouts)))
	for i := 0; i < len(t.Vouts); i++ {
		o := t.Vouts[i]
		r = append(r, o.amount...)
		r = append(r, byte(len(o.lockScript)))
		r = append(r, o.lockScript...)
	}
	if t.Witness {
		for i := 0; i < len(t.Vins); i++ {
			r = append(r, vspec_wit(t.Vins[i])...)
		}
	}
	r = append(r, t.LockTime...)
	veqb(b, r)
	vreach()
}
