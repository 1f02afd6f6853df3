//vp:packages aliencoinTransaction vergeTransaction
//vp:prop P15
package PKG

import (
	"encoding/hex"
	"strings"

	"github.com/blocktree/go-owcrypt"
)

func vspec_tail(t TxStruct) []byte { return t.LockTime }

func vspec_out(o TxOut) []byte { return append(append([]byte{}, o.Amount...), o.LockScript...) }

// a requested output: the amount and the standard script of the address' kind; other addresses are refused
//vp:opt opaque=DecodeCheck
func vlemma_newout(o Vout) {
	t, err := o.NewTxOut()
	p, h, e := DecodeCheck(o.Address)
	if e != nil || len(h) != 20 || (p != vspec_p2pkh && p != vspec_p2sh) {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(t.Amount, vspec_amount(o.Amount))
	if p == vspec_p2pkh {
		veqb(t.LockScript, append(append([]byte{0x19, 0x76, 0xa9, 0x14}, h...), 0x88, 0xac))
	} else {
		veqb(t.LockScript, append(append([]byte{0x17, 0xa9, 0x14}, h...), 0x87))
	}
	vreach()
}

func vlemma_outbytes(o TxOut) {
	veqb(o.ToBytes(), vspec_out(o))
	vreach()
}

// the digest of input i: the transaction with the lock script of input i in place of its signature and no other script
//vp:opt opaque=TxOut).ToBytes
func vlemma_gethash(t TxStruct, i int) {
	h, err := t.GetHash()
	vassert(err == nil && len(h) == len(t.Vin))
	if i < 0 || i >= len(t.Vin) {
		return
	}
	r := append(vspec_head(t), byte(len(t.Vin)))
	for k := 0; k < len(t.Vin); k++ {
		r = append(r, t.Vin[k].TxID...)
		r = append(r, t.Vin[k].Vout...)
		if k == i {
			r = append(r, t.Vin[k].LockScript...)
		} else {
			r = append(r, 0)
		}
		r = append(r, t.Vin[k].Sequence...)
	}
	r = append(r, byte(len(t.Vout)))
	for k := 0; k < len(t.Vout); k++ {
		r = append(r, t.Vout[k].ToBytes()...)
	}
	r = append(r, t.LockTime...)
	r = append(r, 1, 0, 0, 0)
	veqs(h[i], hex.EncodeToString(owcrypt.Hash(r, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)))
	vreach()
}

// the lock scripts that come with an empty transaction end up, with their length, at their inputs
func vlemma_decodelock(s string, i int) {
	t, _, err := DecodeTxStructRaw(s)
	if err != nil {
		return
	}
	parts := strings.Split(s, ":")
	if i >= 0 && i < len(t.Vin) {
		x := t.Vin[i]
		l, e := hex.DecodeString(parts[i+1])
		vassert(e == nil && len(l) <= 252)
		veqb(x.LockScript, append([]byte{byte(len(l))}, l...))
		vassert(x.SigPub == nil)
		vreach()
	}
}

//vp:opt opaque=serilizeS
func vlemma_sign(h string, pri []byte) {
	p := vcopy(pri)
	s, err := SignTransaction(h, pri)
	msg, e := hex.DecodeString(h)
	if e != nil || len(msg) != 32 || len(pri) != 32 {
		vassert(err != nil && s == nil)
		vreach()
		return
	}
	if err == nil {
		vassert(vsigned(p, msg, s, owcrypt.ECC_CURVE_SECP256K1))
		vreach()
	}
}

// combining: every signature must verify, under its key, over the digest of its input; the result is the transaction with those signatures
//vp:opt opaque=DecodeTxStructRaw,TxStruct).ToBytes,vopq_gethash contracts=GetHash:+vcontract_gethash
func vlemma_combine(s string, sp []SigPub, i int) {
	ok, hx, err := VerifyAndCombineTransaction(s, sp)
	vassert(ok == (err == nil))
	t, _, e := DecodeTxStructRaw(s)
	if !ok {
		vassert(hx == "")
		vreach()
		return
	}
	vassert(e == nil && len(sp) > 0 && len(sp) == len(t.Vin))
	h, e := t.GetHash()
	vassert(e == nil)
	if i >= 0 && i < len(sp) {
		msg, _ := hex.DecodeString(h[i])
		vassert(len(sp[i].Pubkey) == 33 && len(sp[i].Signature) == 64)
		p := owcrypt.PointDecompress(sp[i].Pubkey, owcrypt.ECC_CURVE_SECP256K1)
		vassert(len(p) == 65 && vverified(p[1:], msg, sp[i].Signature, owcrypt.ECC_CURVE_SECP256K1))
		vreach()
	}
}

// the signed transaction is the empty one with the signatures at their inputs
//vp:opt opaque=DecodeTxStructRaw,TxStruct).ToBytes,vopq_gethash contracts=GetHash:+vcontract_gethash
func vlemma_combined(s string, sp []SigPub) {
	ok, hx, _ := VerifyAndCombineTransaction(s, sp)
	if !ok {
		return
	}
	t, _, _ := DecodeTxStructRaw(s)
	for k := 0; k < len(sp); k++ {
		t.Vin[k].SigPub = &sp[k]
	}
	veqs(hx, hex.EncodeToString(t.ToBytes()))
	vreach()
}
