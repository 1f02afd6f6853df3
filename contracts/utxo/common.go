//vp:packages aliencoinTransaction vergeTransaction vollarTransaction
//vp:prop P15
package PKG

import (
	"encoding/hex"
	"strings"

	"github.com/blocktree/go-owcrypt"
)

func vsigned(pri, msg, sig []byte, curve uint32) bool {
	pub, r := owcrypt.GenPubkey(pri, curve)
	return r == owcrypt.SUCCESS && owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vverified(pub, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

// a signature that reached an input passed the length checks of the combining step
func vspec_sigok(s *SigPub) bool {
	return s == nil || (len(s.Signature) == 64 && len(s.Pubkey) == 33)
}

func vopq_gethash(t TxStruct) ([]string, error) { return t.GetHash() }

// of GetHash, used by the combining step: one digest per input, in hex (proved by vlemma_gethash)
func vcontract_gethash(t TxStruct) ([]string, error) {
	h, e := vopq_gethash(t)
	if e == nil {
		vassume(len(h) == len(t.Vin))
		for k := 0; k < len(h); k++ {
			_, x := hex.DecodeString(h[k])
			vassume(x == nil)
		}
	}
	return h, e
}

func vspec_rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := 0; i < len(b); i++ {
		r[i] = b[len(b)-1-i]
	}
	return r
}

// a requested input: outpoint with the id in wire order, final sequence, the lock script with its length; malformed requests are refused
func vlemma_newin(in Vin) {
	t, err := in.NewTxIn()
	id, e1 := hex.DecodeString(in.TxID)
	lock, e2 := hex.DecodeString(in.LockScript)
	if e1 != nil || len(id) != 32 || e2 != nil || len(lock) > 252 {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	vassert(err == nil && t.SigPub == nil)
	veqb(t.TxID, vspec_rev(id))
	veqb(t.Vout, []byte{byte(in.Vout), byte(in.Vout >> 8), byte(in.Vout >> 16), byte(in.Vout >> 24)})
	veqb(t.Sequence, []byte{255, 255, 255, 255})
	veqb(t.LockScript, append([]byte{byte(len(lock))}, lock...))
	vreach()
}

func vspec_amount(v uint64) []byte {
	return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24), byte(v >> 32), byte(v >> 40), byte(v >> 48), byte(v >> 56)}
}

//vp:opt opaque=SigPub).ToBytes
func vlemma_inbytes(in TxIn) {
	vassume(vspec_sigok(in.SigPub))
	r := append(append([]byte{}, in.TxID...), in.Vout...)
	if in.SigPub == nil {
		r = append(r, 0)
	} else {
		r = append(r, in.SigPub.ToBytes()...)
	}
	veqb(in.ToBytes(), append(r, in.Sequence...))
	vreach()
}

// the emptied transaction is written field by field: header, inputs, outputs, trailer
//vp:opt opaque=TxIn).ToBytes,TxOut).ToBytes
func vlemma_txbytes(t TxStruct) {
	r := vspec_head(t)
	r = append(r, byte(len(t.Vin)))
	for i := 0; i < len(t.Vin); i++ {
		vassume(vspec_sigok(t.Vin[i].SigPub))
		r = append(r, t.Vin[i].ToBytes()...)
	}
	r = append(r, byte(len(t.Vout)))
	for i := 0; i < len(t.Vout); i++ {
		r = append(r, t.Vout[i].ToBytes()...)
	}
	veqb(t.ToBytes(), append(r, vspec_tail(t)...))
	vreach()
}

// what is decoded is the bytes it was decoded from, with as many lock scripts as inputs; anything else is an error, never a crash
func vlemma_decode(s string) {
	t, locks, err := DecodeTxStructRaw(s)
	parts := strings.Split(s, ":")
	vassert((t == nil) == (err != nil))
	if err != nil {
		return
	}
	b, e := hex.DecodeString(parts[0])
	vassert(e == nil && len(t.Vin) == len(parts)-1 && len(locks) == len(parts)-1 && len(t.Vin) <= 255 && len(t.Vout) <= 255)
	r := vspec_head(*t)
	r = append(r, byte(len(t.Vin)))
	for i := 0; i < len(t.Vin); i++ {
		r = append(r, t.Vin[i].TxID...)
		r = append(r, t.Vin[i].Vout...)
		r = append(r, 0)
		r = append(r, t.Vin[i].Sequence...)
	}
	r = append(r, byte(len(t.Vout)))
	for i := 0; i < len(t.Vout); i++ {
		r = append(r, vspec_out(t.Vout[i])...)
	}
	veqb(append(r, vspec_tail(*t)...), b)
	vreach()
}
