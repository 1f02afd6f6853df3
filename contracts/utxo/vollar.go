//vp:packages vollarTransaction
//vp:prop P15
package PKG

import (
	"encoding/hex"

	"github.com/blocktree/go-owcrypt"
)

func vspec_head(t TxStruct) []byte { return append(append([]byte{}, t.Version...), t.Flag) }
func vspec_tail(t TxStruct) []byte { return nil }

func vspec_out(o TxOut) []byte {
	r := append(append([]byte{}, o.Amount...), o.Flag)
	return append(append(r, o.LockScript...), o.HashData...)
}

func vlemma_outbytes(o TxOut) {
	veqb(o.ToBytes(), vspec_out(o))
	vreach()
}

//vp:opt opaque=DecodeCheck
func vlemma_newout(o Vout) {
	t, err := o.NewTxOut()
	p, h, e := DecodeCheck(o.Address)
	vassume(e != nil || len(h) == 20)
	key := len(p) == 2 && p[0] == 0x10 && p[1] == 0x1c
	if e != nil || (!key && !(len(p) == 2 && p[0] == 0x10 && p[1] == 0x41)) {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	vassert(err == nil && t.Flag == 0)
	veqb(t.Amount, vspec_amount(o.Amount))
	veqb(t.HashData, make([]byte, 32))
	if key {
		veqb(t.LockScript, append(append([]byte{0x19, 0x76, 0xa9, 0x14}, h...), 0x88, 0xac))
	} else {
		veqb(t.LockScript, append(append([]byte{0x17, 0xa9, 0x14}, h...), 0x87))
	}
	vreach()
}

//vp:opt opaque=NewTxIn,NewTxOut
func vlemma_newtx(in []Vin, out []Vout, i int) {
	t, err := NewTxStruct(in, out)
	if err != nil {
		vassert(t == nil)
		return
	}
	vassert(len(t.Vin) == len(in) && len(t.Vout) == len(out) && len(in) <= 252 && len(out) <= 252 && t.Flag == 0)
	veqb(t.Version, []byte{1, 0, 0, 0})
	if i >= 0 && i < len(in) {
		x, e := in[i].NewTxIn()
		vassert(e == nil)
		veqb(t.Vin[i].TxID, x.TxID)
		veqb(t.Vin[i].Vout, x.Vout)
		veqb(t.Vin[i].Sequence, x.Sequence)
		veqb(t.Vin[i].LockScript, x.LockScript)
		vreach()
	}
	if i >= 0 && i < len(out) {
		x, e := out[i].NewTxOut()
		vassert(e == nil)
		veqb(t.Vout[i].Amount, x.Amount)
		veqb(t.Vout[i].LockScript, x.LockScript)
		veqb(t.Vout[i].HashData, x.HashData)
		vassert(t.Vout[i].Flag == x.Flag)
		vreach()
	}
}

// the digest of input i commits to all outpoints, sequences and outputs, and to its own outpoint, lock script and sequence
func vlemma_gethash(t TxStruct, i int) {
	h, err := t.GetHash()
	if len(t.Vin) == 0 {
		vassert(err != nil)
		return
	}
	vassert(err == nil && len(h) == len(t.Vin))
	if i < 0 || i >= len(t.Vin) {
		return
	}
	var a, b, c []byte
	for k := 0; k < len(t.Vin); k++ {
		a = append(a, t.Vin[k].TxID...)
		a = append(a, t.Vin[k].Vout...)
	}
	for k := 0; k < len(t.Vin); k++ {
		b = append(b, t.Vin[k].Sequence...)
	}
	for k := 0; k < len(t.Vout); k++ {
		c = append(c, vspec_out(t.Vout[k])...)
	}
	r := append([]byte{}, owcrypt.Hash(a, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)...)
	r = append(r, owcrypt.Hash(b, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)...)
	r = append(r, owcrypt.Hash(c, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)...)
	r = append(r, make([]byte, 80)...)
	r = append(r, 1, 0, 0, 0)
	r = append(r, t.Vin[i].TxID...)
	r = append(r, t.Vin[i].Vout...)
	r = append(r, t.Vin[i].LockScript...)
	r = append(r, t.Vin[i].Sequence...)
	veqs(h[i], hex.EncodeToString(owcrypt.Hash(r, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)))
	vreach()
}

//vp:opt opaque=serilizeS
func vlemma_sign(h string, pri []byte) {
	p := vcopy(pri)
	s, err := SignRawTransaction(h, pri)
	msg, e := hex.DecodeString(h)
	if e != nil || len(msg) != 32 || len(pri) != 32 {
		vassert(err != nil && s == nil)
		vreach()
		return
	}
	if err == nil {
		vassert(vsigned(p, msg, s, owcrypt.ECC_CURVE_SECP256K1))
		vreach()
	}
}

// combining: accepted only when every signature verifies, under its key, over the digest of its input
//vp:opt opaque=DecodeTxStructRaw,TxStruct).ToBytes,vopq_gethash contracts=GetHash:+vcontract_gethash
func vlemma_combine(s string, sp []SigPub, i int) {
	ok, hx, err := VerifyAndCombineRawTransaction(s, sp)
	t, l, e := DecodeTxStructRaw(s)
	if err != nil {
		vassert(!ok && hx == "")
		return
	}
	vassert(e == nil && len(t.Vin) == len(sp) && len(l) == len(sp))
	for k := 0; k < len(l); k++ {
		lock, _ := hex.DecodeString(l[k])
		t.Vin[k].LockScript = append([]byte{byte(len(lock))}, lock...)
	}
	h, e := t.GetHash()
	vassert(e == nil)
	if i >= 0 && i < len(sp) {
		msg, _ := hex.DecodeString(h[i])
		p := owcrypt.PointDecompress(sp[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
		vassert(len(sp[i].Pubkey) == 33 && len(sp[i].Signature) == 64)
		if ok {
			vassert(len(p) == 65 && vverified(p[1:], msg, sp[i].Signature, owcrypt.ECC_CURVE_SECP256K1))
			vreach()
		}
	}
}

// the signed transaction is the empty one with the lock scripts and signatures at their inputs, and the trailer
//vp:opt opaque=DecodeTxStructRaw,TxStruct).ToBytes,vopq_gethash contracts=GetHash:+vcontract_gethash
func vlemma_combined(s string, sp []SigPub) {
	_, hx, err := VerifyAndCombineRawTransaction(s, sp)
	if err != nil {
		return
	}
	t, l, _ := DecodeTxStructRaw(s)
	for k := 0; k < len(l); k++ {
		lock, _ := hex.DecodeString(l[k])
		t.Vin[k].LockScript = append([]byte{byte(len(lock))}, lock...)
		t.Vin[k].SigPub = &sp[k]
	}
	veqs(hx, hex.EncodeToString(append(t.ToBytes(), make([]byte, 82+len(sp))...)))
	vreach()
}

// what is handed out to be signed: the structure's bytes and the lock scripts, and the structure's digests
//vp:opt opaque=NewTxStruct,TxStruct).ToBytes,vopq_gethash contracts=GetHash:+vcontract_gethash
func vlemma_create(in []Vin, out []Vout, i int) {
	s, h, err := CreateEmptyRawTransactionAndHash(in, out)
	t, e := NewTxStruct(in, out)
	if e != nil {
		vassert(err != nil && s == "" && h == nil)
		vreach()
		return
	}
	g, e := t.GetHash()
	if e != nil {
		return
	}
	vassert(err == nil && len(h) == len(g))
	r := hex.EncodeToString(t.ToBytes())
	for k := 0; k < len(in); k++ {
		r += ":" + in[k].LockScript
	}
	veqs(s, r)
	if i >= 0 && i < len(h) {
		veqs(h[i], g[i])
	}
	vreach()
}
