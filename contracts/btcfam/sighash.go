//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction
//vp:prop P08
package PKG

import (
	"encoding/hex"

	"github.com/blocktree/go-owcrypt"
)

func vspec_dhash(b []byte) []byte {
	return owcrypt.Hash(b, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)
}

func vspec_prevouts(t Transaction) []byte {
	r := []byte{}
	for i := 0; i < len(t.Vins); i++ {
		r = append(r, t.Vins[i].TxID...)
		r = append(r, t.Vins[i].Vout...)
	}
	return r
}

func vspec_sequences(t Transaction) []byte {
	r := []byte{}
	for i := 0; i < len(t.Vins); i++ {
		r = append(r, t.Vins[i].sequence...)
	}
	return r
}

func vspec_outputs(t Transaction) []byte {
	r := []byte{}
	for i := 0; i < len(t.Vouts); i++ {
		r = append(r, t.Vouts[i].amount...)
		r = append(r, byte(len(t.Vouts[i].lockScript)))
		r = append(r, t.Vouts[i].lockScript...)
	}
	return r
}

// the three aggregate digests of the segregated-witness signature hash cover every input and output
func vlemma_seghashes(t Transaction) {
	p, s, o := t.calcSegwitSerializationHashes()
	veqb(p, vspec_dhash(vspec_prevouts(t)))
	veqb(s, vspec_dhash(vspec_sequences(t)))
	veqb(o, vspec_dhash(vspec_outputs(t)))
	vreach()
}

// BIP143 layout: version, prevouts, sequences, outpoint, script code, amount, sequence, outputs, lock time
func vlemma_segbytes(t Transaction, redeem, txid, vout, seq []byte, st byte, amount uint64) {
	vassume(len(redeem) >= 2)
	b, err := t.getSegwitBytesForSig(redeem, txid, vout, seq, st, amount)
	wpkh := redeem[0] == 0 && redeem[1] == 0x14
	if err != nil {
		vassert(b == nil)
		vassert(amount == 0 || (wpkh && len(redeem) != 22))
		return
	}
	vassert(amount != 0)
	e := append([]byte{}, t.Version...)
	e = append(e, vspec_dhash(vspec_prevouts(t))...)
	e = append(e, vspec_dhash(vspec_sequences(t))...)
	e = append(e, txid...)
	e = append(e, vout...)
	if wpkh {
		vassert(len(redeem) == 22)
		e = append(e, 0x19, 0x76, 0xa9, 0x14)
		e = append(e, redeem[2:]...)
		e = append(e, 0x88, 0xac)
	} else {
		e = append(e, vspec_slen(len(redeem))...)
		e = append(e, redeem...)
	}
	e = append(e, byte(amount), byte(amount>>8), byte(amount>>16), byte(amount>>24), byte(amount>>32), byte(amount>>40), byte(amount>>48), byte(amount>>56))
	e = append(e, seq...)
	e = append(e, vspec_dhash(vspec_outputs(t))...)
	e = append(e, t.LockTime...)
	veqb(b, e)
	vreach()
}

// lock scripts are classified by their exact shape and handed on unchanged
//vp:opt except=bitcoincashTransaction,bitcoinsvTransaction,cxcTransaction
func vlemma_scripttype(lock, redeem string) {
	s, r, k, err := checkScriptType(lock, redeem)
	if err != nil {
		vassert(s == nil && r == nil && k == 0)
		return
	}
	d, e2 := hex.DecodeString(lock)
	vassert(e2 == nil)
	veqb(s, d)
	if len(d) == 25 {
		vassert(k == 1 && redeem == "" && r == nil)
		vassert(d[0] == 0x76 && d[1] == 0xa9 && d[2] == 0x14 && d[23] == 0x88 && d[24] == 0xac)
		vreach()
		return
	}
	if len(d) == 22 {
		vassert(k == 3 && redeem == "" && r == nil && d[0] == 0 && d[1] == 0x14)
		vreach()
		return
	}
	vassert(len(d) == 23 && d[0] == 0xa9 && d[1] == 0x14 && d[22] == 0x87)
	rd, e3 := hex.DecodeString(redeem)
	vassert(e3 == nil)
	veqb(r, rd)
	if k == 2 {
		vassert(len(rd) == 22 && rd[0] == 0 && rd[1] == 0x14)
		vreach()
	} else {
		vassert(k == 4 && len(rd) >= 37 && rd[len(rd)-1] == 0xae)
		vreach()
	}
}

//vp:opt only=bitcoincashTransaction,bitcoinsvTransaction
func vlemma_scripttype_cash(lock, redeem string) {
	s, r, k, err := checkScriptType(lock, redeem)
	if err != nil {
		vassert(s == nil && r == nil && k == 0)
		return
	}
	d, e2 := hex.DecodeString(lock)
	vassert(e2 == nil)
	veqb(s, d)
	if len(d) == 25 {
		vassert(k == 1 && r == nil)
		vassert(d[0] == 0x76 && d[1] == 0xa9 && d[2] == 0x14 && d[23] == 0x88 && d[24] == 0xac)
		vreach()
		return
	}
	if len(d) == 22 {
		vassert(k == 3 && redeem == "" && r == nil && d[0] == 0 && d[1] == 0x14)
		vreach()
		return
	}
	vassert(len(d) == 23 && d[0] == 0xa9 && d[1] == 0x14 && d[22] == 0x87)
	rd, e3 := hex.DecodeString(redeem)
	vassert(e3 == nil)
	veqb(r, rd)
	if k == 2 {
		vassert(len(rd) == 22 && rd[0] == 0 && rd[1] == 0x14)
		vreach()
	} else {
		vassert(k == 4 && len(rd) >= 37 && rd[len(rd)-1] == 0xae)
		vreach()
	}
}

// cxc lock scripts may carry an asset suffix of 30 bytes
//vp:opt only=cxcTransaction
func vlemma_scripttype_cxc(lock, redeem string) {
	s, r, k, err := checkScriptType(lock, redeem)
	if err != nil {
		vassert(s == nil && r == nil && k == 0)
		return
	}
	d, e2 := hex.DecodeString(lock)
	vassert(e2 == nil)
	veqb(s, d)
	if len(d) == 25 || len(d) == 55 {
		vassert(k == 1 && redeem == "" && r == nil)
		vassert(d[0] == 0x76 && d[1] == 0xa9 && d[2] == 0x14 && d[23] == 0x88 && d[24] == 0xac)
		vreach()
		return
	}
	if len(d) == 22 {
		vassert(k == 3 && redeem == "" && r == nil && d[0] == 0 && d[1] == 0x14)
		vreach()
		return
	}
	vassert((len(d) == 23 || len(d) == 53) && d[0] == 0xa9 && d[1] == 0x14 && d[22] == 0x87)
	rd, e3 := hex.DecodeString(redeem)
	vassert(e3 == nil)
	veqb(r, rd)
	if k == 2 {
		vassert(len(rd) == 22 && rd[0] == 0 && rd[1] == 0x14)
		vreach()
	} else {
		vassert(k == 4 && len(rd) >= 37 && rd[len(rd)-1] == 0xae)
		vreach()
	}
}

// legacy signature hash message: the transaction with the signed input's script replaced by the
// script being satisfied, every other input script empty, followed by the hash type
//vp:opt except=bitcoincashTransaction,bitcoinsvTransaction
func vlemma_legacybytes(t Transaction, lock, redeem []byte, multi bool, index int, amount uint64) {
	vassume(index >= 0 && index < len(t.Vins))
	t.Witness = false
	for i := 0; i < len(t.Vins); i++ {
		t.Vins[i].setEmpty()
	}
	k := byte(TypeP2PKH)
	sc := lock
	if multi {
		k = TypeMultiSig
		sc = redeem
	}
	b, err := t.getBytesForSig(lock, redeem, k, SigHashAll, index, amount, false)
	if err != nil {
		vassert(b == nil)
		return
	}
	e := append([]byte{}, t.Version...)
	e = append(e, byte(len(t.Vins)))
	for i := 0; i < len(t.Vins); i++ {
		e = append(e, t.Vins[i].TxID...)
		e = append(e, t.Vins[i].Vout...)
		if i == index {
			e = append(e, vspec_slen(len(sc))...)
			e = append(e, sc...)
		} else {
			e = append(e, 0)
		}
		e = append(e, t.Vins[i].sequence...)
	}
	e = append(e, byte(len(t.Vouts)))
	e = append(e, vspec_outputs(t)...)
	e = append(e, t.LockTime...)
	e = append(e, 1, 0, 0, 0)
	veqb(b, e)
	vreach()
}

// witness inputs: BIP143 message of that very input, followed by the hash type
//vp:opt except=bitcoincashTransaction,bitcoinsvTransaction
func vlemma_witbytes(t Transaction, lock, redeem []byte, k byte, index int, amount uint64) {
	vassume(index >= 0 && index < len(t.Vins))
	vassume(k == TypeP2WPKH || k == TypeBech32 || k == TypeMultiSig)
	sc := redeem
	if k == TypeBech32 {
		sc = lock
	}
	vassume(len(sc) >= 2)
	in := t.Vins[index]
	b, err := t.getBytesForSig(lock, redeem, k, SigHashAll, index, amount, true)
	e, err2 := t.getSegwitBytesForSig(sc, in.TxID, in.Vout, in.sequence, SigHashAll, amount)
	vassert((err == nil) == (err2 == nil))
	if err != nil {
		return
	}
	veqb(b, append(e, 1, 0, 0, 0))
	vreach()
}

//vp:opt only=bitcoincashTransaction,bitcoinsvTransaction
func vlemma_legacybytes_cash(t Transaction, lock, redeem []byte, index int, amount uint64) {
	vassume(index >= 0 && index < len(t.Vins))
	t.Witness = false
	for i := 0; i < len(t.Vins); i++ {
		t.Vins[i].setEmpty()
	}
	b, err := t.getBytesForSig(lock, redeem, TypeMultiSig, SigHashAll, index, amount, false)
	if err != nil {
		vassert(b == nil)
		return
	}
	e := append([]byte{}, t.Version...)
	e = append(e, byte(len(t.Vins)))
	for i := 0; i < len(t.Vins); i++ {
		e = append(e, t.Vins[i].TxID...)
		e = append(e, t.Vins[i].Vout...)
		if i == index {
			e = append(e, vspec_slen(len(redeem))...)
			e = append(e, redeem...)
		} else {
			e = append(e, 0)
		}
		e = append(e, t.Vins[i].sequence...)
	}
	e = append(e, byte(len(t.Vouts)))
	e = append(e, vspec_outputs(t)...)
	e = append(e, t.LockTime...)
	e = append(e, 0x41, 0, 0, 0)
	veqb(b, e)
	vreach()
}

// with the fork id every single-signature input is signed over the BIP143 message
//vp:opt only=bitcoincashTransaction,bitcoinsvTransaction
func vlemma_forkbytes(t Transaction, lock, redeem []byte, k byte, index int, amount uint64, sw bool) {
	vassume(index >= 0 && index < len(t.Vins))
	vassume(k == TypeP2PKH || k == TypeP2WPKH || k == TypeBech32 || (sw && k == TypeMultiSig))
	sc := lock
	if k == TypeMultiSig {
		sc = redeem
	}
	vassume(len(sc) >= 2)
	in := t.Vins[index]
	b, err := t.getBytesForSig(lock, redeem, k, SigHashAll, index, amount, sw)
	e, err2 := t.getSegwitBytesForSig(sc, in.TxID, in.Vout, in.sequence, SigHashAll, amount)
	vassert((err == nil) == (err2 == nil))
	if err != nil {
		return
	}
	veqb(b, append(e, 0x41, 0, 0, 0))
	vreach()
}

// any other hash type is refused
func vlemma_sigtype(t Transaction, lock, redeem []byte, k, st byte, index int, amount uint64, sw bool) {
	vassume(st != SigHashAll && k >= TypeP2PKH && k <= TypeMultiSig)
	_, err := t.getBytesForSig(lock, redeem, k, st, index, amount, sw)
	vassert(err != nil)
	vreach()
}
