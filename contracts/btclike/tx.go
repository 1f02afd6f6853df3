//vp:packages btcLikeTxDriver
//vp:prop P18
package btcLikeTxDriver

import (
	"encoding/hex"

	owcrypt "github.com/blocktree/go-owcrypt"
)

func vspec_le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

func vspec_le64(v uint64) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)}
}

func vspec_slen(n int) []byte {
	if n < 253 {
		return []byte{byte(n)}
	}
	return []byte{253, byte(n), byte(n >> 8)}
}

func vlemma_constants() {
	vassert(P2PKHPrefix == 0x6f && P2SHPrefix == 0xc4 && Bech32Prefix == "tb1")
	vassert(DefaultTxVersion == 2 && DefaultHashType == 1 && SigHashAll == 1)
	vreach()
}

// ---- requests

func vspec_pay(a string) ([]byte, bool) {
	if len(a) >= 3 && a[0] == 't' && a[1] == 'b' && a[2] == '1' {
		w, err := Bech32Decode(a)
		if err != nil {
			return nil, false
		}
		return append([]byte{0, byte(len(w))}, w...), true
	}
	p, h, err := DecodeCheck(a)
	if err != nil || len(h) != 20 {
		return nil, false
	}
	if p == 0x6f {
		return append(append([]byte{0x76, 0xa9, 20}, h...), 0x88, 0xac), true
	}
	if p == 0xc4 {
		return append(append([]byte{0xa9, 20}, h...), 0x87), true
	}
	return nil, false
}

//vp:opt opaque=Bech32Decode,DecodeCheck
func vlemma_outs(out []Vout, i int) {
	r, err := newTxOutForEmptyTrans(out)
	if i < 0 || i >= len(out) {
		return
	}
	s, ok := vspec_pay(out[i].Address)
	if err != nil {
		vassert(len(r) == 0)
		return
	}
	vassert(ok && len(r) == len(out))
	veqb(r[i].amount, vspec_le64(out[i].Amount))
	veqb(r[i].lockScript, s)
	vreach()
}

// what can be paid is paid
//vp:opt opaque=Bech32Decode,DecodeCheck
func vlemma_outok(a string, amount uint64) {
	r, err := newTxOutForEmptyTrans([]Vout{{a, amount}})
	_, ok := vspec_pay(a)
	vassert(ok == (err == nil))
	if ok {
		vassert(len(r) == 1)
		vreach()
	}
}

func vlemma_ins(in []Vin, i int) {
	r, err := newTxInForEmptyTrans(in)
	if i < 0 || i >= len(in) {
		return
	}
	if err != nil {
		vassert(len(r) == 0)
		return
	}
	id, e := hex.DecodeString(in[i].TxID)
	vassert(len(r) == len(in) && e == nil && len(id) == 32)
	veqb(r[i].TxID, vrev(id))
	veqb(r[i].Vout, vspec_le32(in[i].Vout))
	vassert(r[i].ScriptPubkeySignature == nil)
	vreach()
}

func vlemma_inok(id []byte, v uint32) {
	vassume(len(id) == 32)
	_, err := newTxInForEmptyTrans([]Vin{{hex.EncodeToString(id), v}})
	vassert(err == nil)
	vreach()
}

//vp:opt opaque=newTxInForEmptyTrans,newTxOutForEmptyTrans
func vlemma_newtx(in []Vin, out []Vout, lt uint32, rep bool, i int) {
	t, err := newTransaction(in, out, lt, rep)
	a, e1 := newTxInForEmptyTrans(in)
	o, e2 := newTxOutForEmptyTrans(out)
	vassert((err == nil) == (e1 == nil && e2 == nil))
	if err != nil {
		vassert(t == nil)
		return
	}
	veqb(t.Version, []byte{2, 0, 0, 0})
	veqb(t.LockTime, vspec_le32(lt))
	vassert(len(t.Vins) == len(a) && len(t.Vouts) == len(o) && t.Witness == nil)
	if i >= 0 && i < len(a) {
		veqb(t.Vins[i].TxID, a[i].TxID)
		veqb(t.Vins[i].Vout, a[i].Vout)
		veqb(t.Vins[i].ScriptPubkeySignature, a[i].ScriptPubkeySignature)
		q := uint32(0xffffffff)
		if rep {
			q = 0xfffffffd
		} else if lt != 0 {
			q = 0xfffffffe
		}
		veqb(t.Vins[i].Sequence, vspec_le32(q))
		vreach()
	}
	if i >= 0 && i < len(o) {
		veqb(t.Vouts[i].amount, o[i].amount)
		veqb(t.Vouts[i].lockScript, o[i].lockScript)
		vreach()
	}
}

// ---- wire format

// witnesses are whole signatures with their keys, or empty
func vpre_wit(t Transaction) {
	for i := 0; i < len(t.Witness); i++ {
		vassume(t.Witness[i].Signature == nil || len(t.Witness[i].Signature) == 64 && len(t.Witness[i].Pubkey) == 33)
	}
}

func vspec_outs(t Transaction) []byte {
	r := []byte{}
	for i := 0; i < len(t.Vouts); i++ {
		o := t.Vouts[i]
		r = append(r, o.amount...)
		r = append(r, byte(len(o.lockScript)))
		r = append(r, o.lockScript...)
	}
	return r
}

// a redeem script of several keys, as opposed to the unlocking script of a single one
func vspec_multi(s []byte) bool {
	return len(s) >= 3 && s[0] >= 0x51 && s[0] <= 0x60 && s[len(s)-1] == 0xae
}

func vlemma_ismulti(t Transaction) {
	r := t.isMultiSig()
	vassert(r == (len(t.Vins) == 1 && vspec_multi(t.Vins[0].ScriptPubkeySignature)))
	vreach()
}

//vp:opt opaque=TxWitness).encodeToScript,Transaction).isMultiSig
func vlemma_enc(t Transaction) {
	vpre_wit(t)
	vassume(!t.isMultiSig())
	b, err := t.encodeToBytes()
	if err != nil {
		vassert(b == nil)
		return
	}
	vassert(len(t.Vins) > 0 && len(t.Vins) < 253 && len(t.Vouts) > 0 && len(t.Vouts) < 253)
	r := append([]byte{}, t.Version...)
	if t.Witness != nil {
		r = append(r, 0, 1)
	}
	r = append(r, byte(len(t.Vins)))
	for i := 0; i < len(t.Vins); i++ {
		in := t.Vins[i]
		r = append(r, in.TxID...)
		r = append(r, in.Vout...)
		r = append(r, byte(len(in.ScriptPubkeySignature)))
		r = append(r, in.ScriptPubkeySignature...)
		r = append(r, in.Sequence...)
	}
	r = append(r, byte(len(t.Vouts)))
	r = append(r, vspec_outs(t)...)
	if t.Witness != nil {
		for i := 0; i < len(t.Witness); i++ {
			w := t.Witness[i]
			if w.Signature == nil {
				r = append(r, 0)
			} else {
				r = append(r, 2)
				r = append(r, w.encodeToScript(1)...)
			}
		}
	}
	r = append(r, t.LockTime...)
	veqb(b, r)
	vreach()
}

// every element of what was written fits its length byte
//vp:opt opaque=TxWitness).encodeToScript,Transaction).isMultiSig
func vlemma_encfit(t Transaction, i int) {
	vpre_wit(t)
	vassume(!t.isMultiSig() && i >= 0)
	_, err := t.encodeToBytes()
	if err != nil {
		return
	}
	if i < len(t.Vins) {
		in := t.Vins[i]
		vassert(len(in.TxID) == 32 && len(in.Vout) == 4 && len(in.ScriptPubkeySignature) < 253)
		vreach()
	}
	if i < len(t.Vouts) {
		o := t.Vouts[i]
		vassert(len(o.amount) == 8 && len(o.lockScript) < 253)
		vreach()
	}
}

// the one multisig input: program of the redeem script in the input, the signatures and the redeem script as witness
//vp:opt opaque=vopq_wit contracts=TxWitness).encodeToScript:vcontract_wit summ=vpre_wit,encodeToBytes,vlemma_encmulti
func vlemma_encmulti(t Transaction) {
	vassume(len(t.Vins) == 1 && vspec_multi(t.Vins[0].ScriptPubkeySignature) && len(t.Vins[0].ScriptPubkeySignature) <= 520)
	vassume(len(t.Witness) <= 16)
	vpre_wit(t)
	b, err := t.encodeToBytes()
	if err != nil {
		vassert(b == nil)
		return
	}
	in := t.Vins[0]
	vassert(t.Witness != nil && len(t.Vouts) > 0 && len(t.Vouts) < 253)
	r := append([]byte{}, t.Version...)
	r = append(r, 0, 1, 1)
	r = append(r, in.TxID...)
	r = append(r, in.Vout...)
	r = append(r, 0x23, 0x22, 0, 0x20)
	r = append(r, owcrypt.Hash(in.ScriptPubkeySignature, 0, owcrypt.HASH_ALG_SHA256)...)
	r = append(r, in.Sequence...)
	r = append(r, byte(len(t.Vouts)))
	r = append(r, vspec_outs(t)...)
	r = append(r, byte(len(t.Witness)+2), 0)
	for i := 0; i < len(t.Witness); i++ {
		s := vcontract_wit(t.Witness[i], 1)
		r = append(r, s[:len(s)-34]...)
	}
	r = append(r, vspec_slen(len(in.ScriptPubkeySignature))...)
	r = append(r, in.ScriptPubkeySignature...)
	r = append(r, t.LockTime...)
	veqb(b, r)
	vreach()
}

func vopq_wit(w TxWitness, t byte) []byte { return w.encodeToScript(t) }

// of encodeToScript (P06): a signature of at least 8 bytes and the pushed public key of 33 bytes
func vcontract_wit(w TxWitness, t byte) []byte {
	s := vopq_wit(w, t)
	vassume(len(s) >= 42 && len(s) <= 108)
	return s
}

//vp:opt opaque=newTransaction,Transaction).encodeToBytes
func vlemma_create(in []Vin, out []Vout, lt uint32, rep bool) {
	s, err := CreateEmptyRawTransaction(in, out, lt, rep)
	t, e := newTransaction(in, out, lt, rep)
	if e != nil {
		vassert(err != nil && s == "")
		return
	}
	b, e := t.encodeToBytes()
	if e != nil {
		vassert(err != nil && s == "")
		return
	}
	vassert(err == nil)
	veqs(s, hex.EncodeToString(b))
	vreach()
}

// ---- decoding: never a crash; the fields partition the bytes

//vp:opt opaque=decodeFromSegwitBytes
func vlemma_decode(b []byte) {
	t, err := DecodeRawTransaction(b)
	vassert((t == nil) == (err != nil))
	if err != nil {
		return
	}
	vassume(t.Witness == nil && b[4] != 0)
	r := append([]byte{}, t.Version...)
	r = append(r, byte(len(t.Vins)))
	for i := 0; i < len(t.Vins); i++ {
		in := t.Vins[i]
		r = append(r, in.TxID...)
		r = append(r, in.Vout...)
		r = append(r, byte(len(in.ScriptPubkeySignature)))
		r = append(r, in.ScriptPubkeySignature...)
		r = append(r, in.Sequence...)
	}
	r = append(r, byte(len(t.Vouts)))
	r = append(r, vspec_outs(*t)...)
	r = append(r, t.LockTime...)
	veqb(r, b)
	vreach()
}

//vp:opt opaque=decodeFromSegwitBytes
func vlemma_decodefields(b []byte, i int) {
	t, err := DecodeRawTransaction(b)
	if err != nil || i < 0 {
		return
	}
	vassert(len(t.Version) == 4 && len(t.LockTime) == 4)
	vassert(t.Witness == nil || len(t.Witness) == len(t.Vins))
	if i < len(t.Vins) {
		vassert(len(t.Vins[i].TxID) == 32 && len(t.Vins[i].Vout) == 4 && len(t.Vins[i].Sequence) == 4)
		vreach()
	}
	if i < len(t.Vouts) {
		vassert(len(t.Vouts[i].amount) == 8)
		vreach()
	}
}

// reading a field changes nothing
func vlemma_getters(in TxIn) {
	vassume(len(in.TxID) == 32 && len(in.Vout) == 4 && len(in.Sequence) == 4)
	id := vcopy(in.TxID)
	s := in.GetTxID()
	veqs(s, hex.EncodeToString(vrev(vcopy(id))))
	veqb(in.TxID, id)
	veqb(vspec_le32(in.GetVout()), in.Vout)
	veqb(vspec_le32(in.GetSequence()), in.Sequence)
	veqs(in.GetScriptPubkey(), hex.EncodeToString(in.ScriptPubkeySignature))
	vreach()
}

// ---- digests

func vlemma_scripttype(s []byte) {
	r := checkScriptType(s)
	switch {
	case len(s) == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 20 && s[23] == 0x88 && s[24] == 0xac:
		vassert(r == TypeP2PKH)
	case len(s) == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87:
		vassert(r == TypeP2SH)
	case len(s) == 22 && s[0] == 0 && s[1] == 20:
		vassert(r == TypeBech32)
	default:
		vassert(r == -1)
	}
	vreach()
}

func vlemma_scriptcode(redeem []byte) {
	c, err := genScriptCodeFromRedeemScript(hex.EncodeToString(redeem))
	if err != nil {
		vassert(len(redeem) < 2 || len(redeem) > 520 || redeem[0] == 0 && redeem[1] == 20 && len(redeem) != 22)
		return
	}
	vassert(len(redeem) >= 2 && len(redeem) <= 520)
	if redeem[0] == 0 && redeem[1] == 20 {
		vassert(len(redeem) == 22)
		veqb(c, append(append([]byte{0x76, 0xa9, 20}, redeem[2:]...), 0x88, 0xac))
		vreach()
	} else {
		veqb(c, redeem)
		vreach()
	}
}

func vlemma_scriptcodetotal(s string) {
	_, err := genScriptCodeFromRedeemScript(s)
	_, e := hex.DecodeString(s)
	vassert(e == nil || err != nil)
	vreach()
}

//vp:opt opaque=genScriptCodeFromRedeemScript
func vlemma_segwitbytes(t Transaction, u TxUnlock, id, vout, seq []byte) {
	b, err := t.calcSegwitBytesForSig(u, id, vout, seq)
	c, e := genScriptCodeFromRedeemScript(u.RedeemScript)
	vassert((err == nil) == (e == nil))
	if err != nil {
		vassert(b == nil)
		return
	}
	vassume(len(c) <= 520)
	p, q := []byte{}, []byte{}
	for i := 0; i < len(t.Vins); i++ {
		p = append(p, t.Vins[i].TxID...)
		p = append(p, t.Vins[i].Vout...)
	}
	for i := 0; i < len(t.Vins); i++ {
		q = append(q, t.Vins[i].Sequence...)
	}
	r := append([]byte{}, t.Version...)
	r = append(r, owcrypt.Hash(p, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)...)
	r = append(r, owcrypt.Hash(q, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)...)
	r = append(r, id...)
	r = append(r, vout...)
	r = append(r, vspec_slen(len(c))...)
	r = append(r, c...)
	r = append(r, vspec_le64(u.Amount)...)
	r = append(r, seq...)
	r = append(r, owcrypt.Hash(vspec_outs(t), 0, owcrypt.HASH_ALG_DOUBLE_SHA256)...)
	r = append(r, t.LockTime...)
	veqb(b, r)
	vreach()
}
