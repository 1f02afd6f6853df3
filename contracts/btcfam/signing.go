//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction
//vp:prop P11
package PKG

import (
	"encoding/hex"

	"github.com/blocktree/go-owcrypt"
)

func vverified(pub, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vsigned(pri, msg, sig []byte, curve uint32) bool {
	pub, r := owcrypt.GenPubkey(pri, curve)
	return r == owcrypt.SUCCESS && vverified(pub, msg, sig, curve)
}

// signing signs exactly the given digest with the given key and returns the signature with the compressed key
//vp:opt opaque=serilizeS
func vlemma_signhash(h string, pri []byte) {
	p := vcopy(pri)
	sp, err := SignRawTransactionHash(h, pri)
	msg, e := hex.DecodeString(h)
	if e != nil || len(msg) != 32 || len(pri) != 32 {
		vassert(err != nil && sp == nil)
		vreach()
		return
	}
	if err != nil {
		vassert(sp == nil)
		return
	}
	vassert(vsigned(p, msg, sp.Signature, owcrypt.ECC_CURVE_SECP256K1))
	pub, r := owcrypt.GenPubkey(p, owcrypt.ECC_CURVE_SECP256K1)
	vassert(r == owcrypt.SUCCESS)
	veqb(sp.Pubkey, owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1))
	vreach()
}

// the unlocking script of a single-key input is the signature script of exactly its signature, key and type; incomplete signatures are refused
//vp:opt opaque=SignaturePubkey).encodeToScript
func vlemma_scriptone(t TxHash, redeem []byte, sw bool) {
	vassume(t.NRequired == 0)
	s, err := t.encodeToScript(redeem, sw)
	if t.Normal == nil || len(t.Normal.SigPub.Signature) != 64 || len(t.Normal.SigPub.Pubkey) != 33 {
		vassert(err != nil && s == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(s, t.Normal.SigPub.encodeToScript(t.Normal.SigType))
	vreach()
}

// script types found in unlock data are the four that can be signed
func vlemma_sctypes(lock, redeem string) {
	_, _, ty, err := checkScriptType(lock, redeem)
	if err != nil {
		return
	}
	vassert(ty >= TypeP2PKH && ty <= TypeMultiSig)
	vreach()
}

// the emptied copy that is verified against has the inputs and outputs of the signed transaction and no scripts
func vlemma_clone(t Transaction, i int) {
	c := t.cloneEmpty()
	veqb(c.Version, t.Version)
	veqb(c.LockTime, t.LockTime)
	vassert(!c.Witness && len(c.Vins) == len(t.Vins) && len(c.Vouts) == len(t.Vouts))
	if i >= 0 && i < len(t.Vins) {
		veqb(c.Vins[i].TxID, t.Vins[i].TxID)
		veqb(c.Vins[i].Vout, t.Vins[i].Vout)
		veqb(c.Vins[i].sequence, t.Vins[i].sequence)
		vassert(c.Vins[i].inType == TypeEmpty && c.Vins[i].scriptPub == nil && c.Vins[i].scriptSig == nil)
		vreach()
	}
	if i >= 0 && i < len(t.Vouts) {
		veqb(c.Vouts[i].amount, t.Vouts[i].amount)
		veqb(c.Vouts[i].lockScript, t.Vouts[i].lockScript)
		vreach()
	}
}
