//vp:packages btcLikeTxDriver
//vp:prop P18
package btcLikeTxDriver

import (
	"encoding/hex"

	owcrypt "github.com/blocktree/go-owcrypt"
)

func vspec_type(s []byte) int {
	switch {
	case len(s) == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 20 && s[23] == 0x88 && s[24] == 0xac:
		return 0
	case len(s) == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87:
		return 1
	case len(s) == 22 && s[0] == 0 && s[1] == 20:
		return 2
	}
	return -1
}

// the digest of input i: the whole transaction with only this input's lock script, or the witness message; then the hash type
func vspec_hash(t Transaction, u TxUnlock, i int) ([]byte, bool) {
	lock, e := hex.DecodeString(u.LockScript)
	if e != nil {
		return nil, false
	}
	ty := vspec_type(lock)
	if ty < 0 {
		return nil, false
	}
	if ty == 2 {
		u.RedeemScript = u.LockScript
	}
	var b []byte
	if ty == 0 {
		t.Vins[i].ScriptPubkeySignature = lock
		b, e = t.encodeToBytes()
	} else {
		b, e = t.calcSegwitBytesForSig(u, t.Vins[i].TxID, t.Vins[i].Vout, t.Vins[i].Sequence)
	}
	if e != nil {
		return nil, false
	}
	t.Vins[i].ScriptPubkeySignature = nil
	return owcrypt.Hash(append(vcopy(b), 1, 0, 0, 0), 0, owcrypt.HASH_ALG_DOUBLE_SHA256), true
}

func vspec_blank(t Transaction) Transaction {
	v := []TxIn{}
	for i := 0; i < len(t.Vins); i++ {
		v = append(v, TxIn{t.Vins[i].TxID, t.Vins[i].Vout, nil, t.Vins[i].Sequence})
	}
	return Transaction{t.Version, v, t.Vouts, t.Witness, t.LockTime}
}

func vspec_hashes(t Transaction, u []TxUnlock) {
	vpre_wit(t)
	x := vspec_blank(t)
	w := append([]TxUnlock{}, u...)
	h, err := t.getHashesForSig(u)
	for i := 0; i < len(w); i++ {
		veqs(u[i].RedeemScript, w[i].RedeemScript)
		veqs(u[i].LockScript, w[i].LockScript)
		d, ok := vspec_hash(x, w[i], i)
		if !ok {
			vassert(err != nil && h == nil)
			vreach()
			return
		}
		if err == nil {
			veqb(h[i], d)
		}
	}
	vassert(err == nil && len(h) == len(w))
	vreach()
}

//vp:opt opaque=Transaction).encodeToBytes,Transaction).calcSegwitBytesForSig bounded=one~input
func vlemma_hash1(t Transaction, u []TxUnlock) {
	vassume(len(u) == 1 && len(t.Vins) == 1)
	vspec_hashes(t, u)
}

//vp:opt opaque=Transaction).encodeToBytes,Transaction).calcSegwitBytesForSig bounded=two~inputs
func vlemma_hash2(t Transaction, u []TxUnlock) {
	vassume(len(u) == 2 && len(t.Vins) == 2)
	vspec_hashes(t, u)
}

//vp:opt opaque=Transaction).encodeToBytes,Transaction).calcSegwitBytesForSig
func vlemma_hashcount(t Transaction, u []TxUnlock) {
	vassume(len(u) != len(t.Vins))
	h, err := t.getHashesForSig(u)
	vassert(err != nil && h == nil)
	vreach()
}

//vp:opt opaque=DecodeRawTransaction,Transaction).getHashesForSig
func vlemma_createhash(s string, u []TxUnlock, i int) {
	h, err := CreateRawTransactionHashForSig(s, u)
	b, e := hex.DecodeString(s)
	if e != nil {
		vassert(err != nil && h == nil)
		return
	}
	t, e := DecodeRawTransaction(b)
	if e != nil {
		vassert(err != nil && h == nil)
		return
	}
	g, e := t.getHashesForSig(u)
	vassert((e == nil) == (err == nil))
	if err != nil {
		return
	}
	vassert(len(h) == len(g))
	if i >= 0 && i < len(h) {
		veqs(h[i], hex.EncodeToString(g[i]))
		vreach()
	}
}

// every given hash is signed with its own key, in order (calcSignaturePubkey is P05)
//vp:opt opaque=calcSignaturePubkey
func vlemma_signhash(h []string, u []TxUnlock) {
	r, err := SignRawTransactionHash(h, u)
	hs := [][]byte{}
	for i := 0; i < len(h); i++ {
		b, e := hex.DecodeString(h[i])
		if e != nil {
			vassert(err != nil && r == nil)
			vreach()
			return
		}
		hs = append(hs, b)
	}
	g, e := calcSignaturePubkey(hs, u)
	vassert((err == nil) == (e == nil) && len(r) == len(g))
	vreach()
}

// ---- inserting

// input i of t with its signature, by the type of its lock script
func vspec_place(t *Transaction, u TxUnlock, s SignaturePubkey, i int) bool {
	lock, e := hex.DecodeString(u.LockScript)
	if e != nil {
		return false
	}
	ty := vspec_type(lock)
	if ty == 0 {
		t.Vins[i].ScriptPubkeySignature = s.encodeToScript(1)
		if t.Witness != nil {
			t.Witness = append(t.Witness, TxWitness{})
		}
		return true
	}
	if ty < 0 {
		return false
	}
	for len(t.Witness) < i {
		t.Witness = append(t.Witness, TxWitness{})
	}
	t.Witness = append(t.Witness, TxWitness{s.Signature, s.Pubkey})
	t.Vins[i].ScriptPubkeySignature = nil
	if ty == 1 {
		r, e := hex.DecodeString(u.RedeemScript)
		if e != nil || vspec_type(r) != 2 {
			return false
		}
		t.Vins[i].ScriptPubkeySignature = append([]byte{22}, r...)
	}
	return true
}

func vspec_insert(txs string, sp []SignaturePubkey, u []TxUnlock, n int) {
	vassume(len(u) == n)
	b, e := hex.DecodeString(txs)
	t := &Transaction{}
	if e == nil {
		t, e = DecodeRawTransaction(b)
		if e == nil {
			vassume(len(t.Vins) == n)
		}
	}
	multi := isMultiSig(u[0].LockScript, u[0].RedeemScript)
	vassume(n != 1 || !multi) // vlemma_insertmulti
	w := append([]TxUnlock{}, u...)
	s, err := InsertSignatureIntoEmptyTransaction(txs, sp, u)
	for i := 0; i < n; i++ {
		veqs(u[i].RedeemScript, w[i].RedeemScript)
		veqs(u[i].LockScript, w[i].LockScript)
	}
	if e != nil || t.Witness != nil || len(t.Vouts) == 0 {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	if multi {
		if n != 1 {
			vassert(err != nil && s == "")
		}
		return
	}
	if len(sp) != n {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	for i := 0; i < n; i++ {
		if len(sp[i].Signature) != 64 || len(sp[i].Pubkey) != 33 || !vspec_place(t, w[i], sp[i], i) {
			vassert(err != nil && s == "")
			vreach()
			return
		}
	}
	r, e := t.encodeToBytes()
	if e != nil {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	vassert(err == nil)
	veqs(s, hex.EncodeToString(r))
	vreach()
}

//vp:opt opaque=DecodeRawTransaction,Transaction).encodeToBytes,SignaturePubkey).encodeToScript,isMultiSig bounded=one~input
func vlemma_insert1(txs string, sp []SignaturePubkey, u []TxUnlock) { vspec_insert(txs, sp, u, 1) }

//vp:opt opaque=DecodeRawTransaction,Transaction).encodeToBytes,SignaturePubkey).encodeToScript,isMultiSig bounded=two~inputs budget=300
func vlemma_insert2(txs string, sp []SignaturePubkey, u []TxUnlock) { vspec_insert(txs, sp, u, 2) }

// which inputs are multisig inputs
func vlemma_ismultisig(lock, redeem string) {
	m := isMultiSig(lock, redeem)
	l, e1 := hex.DecodeString(lock)
	r, e2 := hex.DecodeString(redeem)
	vassert(m == (e1 == nil && e2 == nil && vspec_type(l) == 1 && len(r) >= 3 && r[0] >= 0x51 && r[0] <= 0x60 && r[len(r)-1] == 0xae))
	vreach()
}

// a multisig input takes exactly the required signatures, in the given order
//vp:opt opaque=DecodeRawTransaction,Transaction).encodeToBytes
func vlemma_insertmulti(txs string, sp []SignaturePubkey, u []TxUnlock, i int) {
	vassume(len(u) == 1)
	l, e1 := hex.DecodeString(u[0].LockScript)
	r, e2 := hex.DecodeString(u[0].RedeemScript)
	vassume(e1 == nil && e2 == nil && vspec_type(l) == 1)
	vassume(len(r) >= 3 && r[0] >= 0x51 && r[0] <= 0x60 && r[len(r)-1] == 0xae)
	b, e := hex.DecodeString(txs)
	vassume(e == nil)
	t, e := DecodeRawTransaction(b)
	s, err := InsertSignatureIntoEmptyTransaction(txs, sp, u)
	if e != nil || t.Witness != nil || len(t.Vins) != 1 || len(t.Vouts) == 0 || len(r) > 520 || len(sp) != int(r[0])-0x50 {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	vassume(i >= 0 && i < len(sp))
	if len(sp[i].Signature) != 64 || len(sp[i].Pubkey) != 33 {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	if err != nil {
		vassert(s == "")
		return
	}
	t.Vins[0].ScriptPubkeySignature = r
	for k := 0; k < len(sp); k++ {
		t.Witness = append(t.Witness, TxWitness{sp[k].Signature, sp[k].Pubkey})
	}
	x, e := t.encodeToBytes()
	vassert(e == nil)
	veqs(s, hex.EncodeToString(x))
	vreach()
}

// ---- signing in one go

//vp:opt opaque=DecodeRawTransaction,Transaction).encodeToBytes,SignaturePubkey).encodeToScript,Transaction).getHashesForSig,calcSignaturePubkey bounded=two~inputs budget=300
func vlemma_signempty2(txs string, u []TxUnlock) {
	vassume(len(u) == 2)
	b, e := hex.DecodeString(txs)
	vassume(e == nil)
	t, e := DecodeRawTransaction(b)
	vassume(e == nil && len(t.Vins) == 2)
	t1, _ := DecodeRawTransaction(b)
	h, e := t1.getHashesForSig(u)
	vassume(e == nil && t.Witness == nil)
	sp, e := calcSignaturePubkey(h, u)
	vassume(e == nil && len(sp) == 2)
	s, err := SignEmptyRawTransaction(txs, u)
	for i := 0; i < 2; i++ {
		if l, e := hex.DecodeString(u[i].LockScript); e == nil && vspec_type(l) < 0 {
			return
		}
		if !vspec_place(t, u[i], sp[i], i) {
			vassert(err != nil && s == "")
			vreach()
			return
		}
	}
	r, e := t.encodeToBytes()
	if e != nil {
		vassert(err != nil && s == "")
		return
	}
	vassert(err == nil)
	veqs(s, hex.EncodeToString(r))
	vreach()
}

// ---- verifying

func vverified(pub, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vspec_signed(h, pub, sig []byte) bool {
	p := owcrypt.PointDecompress(pub, owcrypt.ECC_CURVE_SECP256K1)
	return len(p) == 65 && vverified(p[1:], h, sig, owcrypt.ECC_CURVE_SECP256K1)
}

func vlemma_verifyhashes(h [][]byte, sp []SignaturePubkey, i int) {
	vassume(len(h) == len(sp) && i >= 0 && i < len(sp))
	vassume(len(sp[i].Signature) == 64 && len(h[i]) == 32)
	ok := verifyHashes(h, sp)
	if ok {
		vassert(vspec_signed(h[i], sp[i].Pubkey, sp[i].Signature))
		vreach()
	}
}

func vspec_verify(txs string, u []TxUnlock, n int) {
	vassume(len(u) == n)
	b, e := hex.DecodeString(txs)
	var t *Transaction
	if e == nil {
		t, e = DecodeRawTransaction(b)
		if e == nil {
			vassume(len(t.Vins) == n && (t.Witness == nil || len(t.Witness) == n))
		}
	}
	w := append([]TxUnlock{}, u...)
	ok := VerifyRawTransaction(txs, u)
	for i := 0; i < n; i++ {
		veqs(u[i].RedeemScript, w[i].RedeemScript)
		veqs(u[i].LockScript, w[i].LockScript)
	}
	if e != nil {
		vassert(!ok)
		vreach()
		return
	}
	sp := []SignaturePubkey{}
	for i := 0; i < n; i++ {
		l, e := hex.DecodeString(w[i].LockScript)
		wit := t.Witness != nil && t.Witness[i].Signature != nil
		in := t.Vins[i].ScriptPubkeySignature
		ty := 9
		if e == nil {
			ty = vspec_type(l)
		}
		if ty == 9 || wit != (ty != 0) || ty == 2 && len(in) != 0 || (ty == 1 || ty < 0) && (len(in) != 23 || in[0] != 22) {
			vassert(!ok)
			vreach()
			return
		}
		if ty == 0 {
			d, e := decodeFromScriptBytes(in)
			if e != nil {
				vassert(!ok)
				return
			}
			sp = append(sp, *d)
		} else {
			sp = append(sp, SignaturePubkey{t.Witness[i].Signature, t.Witness[i].Pubkey})
		}
		if ty == 1 || ty < 0 {
			w[i].RedeemScript = hex.EncodeToString(in[1:])
		}
	}
	t.Witness = nil
	h, e := t.getHashesForSig(w)
	if e != nil {
		vassert(!ok)
		return
	}
	vassert(ok == verifyHashes(h, sp))
	vreach()
}

//vp:opt opaque=DecodeRawTransaction,decodeFromScriptBytes,Transaction).getHashesForSig,verifyHashes bounded=one~input
func vlemma_verify1(txs string, u []TxUnlock) { vspec_verify(txs, u, 1) }

//vp:opt opaque=DecodeRawTransaction,decodeFromScriptBytes,Transaction).getHashesForSig,verifyHashes bounded=two~inputs budget=300
func vlemma_verify2(txs string, u []TxUnlock) { vspec_verify(txs, u, 2) }

//vp:opt opaque=DecodeRawTransaction
func vlemma_verifycount(txs string, u []TxUnlock) {
	b, e := hex.DecodeString(txs)
	vassume(e == nil)
	t, e := DecodeRawTransaction(b)
	vassume(e == nil && len(t.Vins) != len(u))
	vassert(!VerifyRawTransaction(txs, u))
	vreach()
}

// ---- multisig addresses

func vspec_redeem(m byte, keys [][]byte) []byte {
	r := []byte{0x50 + m}
	for i := 0; i < len(keys); i++ {
		r = append(r, byte(len(keys[i])))
		r = append(r, keys[i]...)
	}
	return append(r, 0x50+byte(len(keys)), 0xae)
}

//vp:opt opaque=EncodeCheck summ=CreateMultiSig,vspec_redeem
func vlemma_createmulti(m byte, keys [][]byte, i int) {
	a, s, err := CreateMultiSig(m, keys)
	if m < 1 || int(m) > len(keys) || len(keys) > 16 {
		vassert(err != nil && a == "" && s == "")
		vreach()
		return
	}
	vassume(i >= 0 && i < len(keys))
	if len(keys[i]) != 33 && len(keys[i]) != 65 {
		vassert(err != nil && a == "" && s == "")
		vreach()
		return
	}
	if err != nil {
		vassert(a == "" && s == "")
		return
	}
	r := vspec_redeem(m, keys)
	vassert(len(s) <= 1040)
	veqs(s, hex.EncodeToString(r))
	h := owcrypt.Hash(append([]byte{0, 0x20}, owcrypt.Hash(r, 0, owcrypt.HASH_ALG_SHA256)...), 0, owcrypt.HASH_ALG_HASH160)
	veqs(a, EncodeCheck(0xc4, h))
	vreach()
}
