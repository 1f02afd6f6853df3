//vp:packages omniTransaction
//vp:prop P11
package PKG

import (
	"encoding/hex"
	"errors"

	"github.com/blocktree/go-owcrypt"
)

func vopq_hash(t Transaction, ud []TxUnlock, ap AddressPrefix, i int) []byte { return nil }
func vopq_hashok(t Transaction, ud []TxUnlock, ap AddressPrefix) bool    { return true }

// the hashes to sign: one per input, with room for one signature (getHashesForSig is P08)
func vcontract_hashes(t Transaction, ud []TxUnlock, sw bool, ap AddressPrefix) ([]TxHash, error) {
	if !vopq_hashok(t, ud, ap) {
		return nil, errors.New("no hashes")
	}
	r := []TxHash{{hex.EncodeToString(vopq_hash(t, ud, ap, 0)), 0, &NormalTx{}, nil}}
	if len(ud) == 2 {
		r = append(r, TxHash{hex.EncodeToString(vopq_hash(t, ud, ap, 1)), 0, &NormalTx{}, nil})
	}
	return r, nil
}

func vcontract_hashes3(t Transaction, ud []TxUnlock, sw bool, ap AddressPrefix) ([]TxHash, error) {
	if !vopq_hashok(t, ud, ap) {
		return nil, errors.New("no hashes")
	}
	return []TxHash{{hex.EncodeToString(vopq_hash(t, ud, ap, 0)), 2, nil, make([]MultiTx, 3)}}, nil
}

func vopq_mok(script []byte) bool           { return true }
func vopq_mpart(script []byte, k int) []byte { return nil }

// a decoded 2-of-3 script: as many signature types as entries
func vcontract_multi(script []byte) ([]SignaturePubkey, []byte, error) {
	if !vopq_mok(script) {
		return nil, nil, errors.New("no multisig script")
	}
	return []SignaturePubkey{{vopq_mpart(script, 0), vopq_mpart(script, 2)}, {vopq_mpart(script, 1), vopq_mpart(script, 3)}, {nil, vopq_mpart(script, 4)}}, []byte{1, 1, 0}, nil
}

func vspec_keysigned(h string, pub, sig []byte) bool {
	p := owcrypt.PointDecompress(pub, owcrypt.ECC_CURVE_SECP256K1)
	msg, _ := hex.DecodeString(h)
	return len(p) == 65 && vverified(p[1:], msg, sig, owcrypt.ECC_CURVE_SECP256K1)
}

// the signature of input i verifies, under the key it comes with, over the hash of the emptied transaction
func vspec_good(t *Transaction, h []TxHash, i int) bool {
	if t.Vins[i].inType != TypeP2PKH && t.Vins[i].inType != TypeP2WPKH && t.Vins[i].inType != TypeBech32 {
		return false
	}
	sp, _, e := decodeFromScriptBytes(t.Vins[i].scriptSig)
	return e == nil && vspec_keysigned(h[i].Hash, sp.Pubkey, sp.Signature)
}

// accepted exactly if that holds for every input
//vp:opt opaque=DecodeRawTransaction,decodeFromScriptBytes,decodeMultiBytes,vopq_hash,vopq_hashok contracts=getHashesForSig:+vcontract_hashes bounded=transactions_with_one_single-key_input
func vlemma_verify_one(txHex string, ud []TxUnlock, ap AddressPrefix) {
	vassume(len(ud) == 1)
	ok := VerifyRawTransaction(txHex, ud, ap)
	raw, e := hex.DecodeString(txHex)
	if e != nil {
		vassert(!ok)
		return
	}
	t, e := DecodeRawTransaction(raw, false)
	if e != nil || len(t.Vins) != 1 {
		vassert(!ok)
		return
	}
	h, e := t.cloneEmpty().getHashesForSig(ud, false, ap)
	if e != nil {
		vassert(!ok)
		return
	}
	vassume(h[0].NRequired == 0)
	vassert(ok == vspec_good(t, h, 0))
	vreach()
}

//vp:opt opaque=DecodeRawTransaction,decodeFromScriptBytes,decodeMultiBytes,vopq_hash,vopq_hashok contracts=getHashesForSig:+vcontract_hashes bounded=transactions_with_two_single-key_inputs
func vlemma_verify_two(txHex string, ud []TxUnlock, ap AddressPrefix) {
	vassume(len(ud) == 2)
	ok := VerifyRawTransaction(txHex, ud, ap)
	raw, e := hex.DecodeString(txHex)
	if e != nil {
		vassert(!ok)
		return
	}
	t, e := DecodeRawTransaction(raw, false)
	if e != nil || len(t.Vins) != 2 {
		vassert(!ok)
		return
	}
	h, e := t.cloneEmpty().getHashesForSig(ud, false, ap)
	if e != nil {
		vassert(!ok)
		return
	}
	vassume(h[0].NRequired == 0 && h[1].NRequired == 0)
	if !vspec_good(t, h, 0) {
		vassert(!ok)
		vreach()
		return
	}
	vassert(ok == vspec_good(t, h, 1))
	vreach()
}

// a 2-of-3 input is accepted exactly if its two signatures verify under two different keys in the order of the keys
//vp:opt opaque=DecodeRawTransaction,decodeFromScriptBytes,vopq_hash,vopq_hashok,vopq_mok,vopq_mpart contracts=getHashesForSig:+vcontract_hashes3,decodeMultiBytes:+vcontract_multi bounded=transactions_with_one_2-of-3_input
func vlemma_verify_multi(txHex string, ud []TxUnlock, ap AddressPrefix) {
	vassume(len(ud) == 1)
	ok := VerifyRawTransaction(txHex, ud, ap)
	raw, e := hex.DecodeString(txHex)
	if e != nil {
		vassert(!ok)
		return
	}
	t, e := DecodeRawTransaction(raw, false)
	if e != nil || len(t.Vins) != 1 {
		vassert(!ok)
		return
	}
	h, e := t.cloneEmpty().getHashesForSig(ud, false, ap)
	if e != nil {
		vassert(!ok)
		return
	}
	vassume(h[0].NRequired == 2 && len(h[0].Multi) == 3)
	if t.Vins[0].inType != TypeMultiSig {
		vassert(!ok)
		return
	}
	sp, st, e := decodeMultiBytes(t.Vins[0].scriptMulti)
	if e != nil {
		vassert(!ok)
		vreach()
		return
	}
	vassume(len(sp) == 3 && len(st) == 3)
	s0, s1 := sp[0].Signature, sp[1].Signature
	if vspec_keysigned(h[0].Hash, sp[0].Pubkey, s0) {
		vassert(ok == (vspec_keysigned(h[0].Hash, sp[1].Pubkey, s1) || vspec_keysigned(h[0].Hash, sp[2].Pubkey, s1)))
		vreach()
	} else if vspec_keysigned(h[0].Hash, sp[1].Pubkey, s0) {
		vassert(ok == vspec_keysigned(h[0].Hash, sp[2].Pubkey, s1))
		vreach()
	} else {
		vassert(!ok)
		vreach()
	}
}
