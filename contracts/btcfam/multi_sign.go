//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction
//vp:prop P12
package PKG

import "encoding/hex"

// reading a redeem script: fails, or gives the required number and exactly the keys laid out in it
func vlemma_multidetails(r []byte, i int) {
	vassume(len(r) < 65536)
	m, keys, err := getMultiDetails(r)
	if err != nil {
		vassert(m == 0 && keys == nil)
		vreach()
		return
	}
	n := len(keys)
	if i >= 0 && i < n {
		veqs(keys[i], hex.EncodeToString(r[2+34*i:35+34*i]))
		vassert(r[1+34*i] == 0x21)
		vreach()
	}
	vassert(m >= 1 && m <= 16 && int(m) <= n%256)
	vassert(len(r) >= 2+34*n && r[0] == 0x50+m && r[1+34*n] == 0x50+byte(n))
}

// no script of any length crashes the reader
//vp:opt tier=thorough budget=300
func vlemma_multidetotal(r []byte) {
	m, keys, err := getMultiDetails(r)
	if err != nil {
		vassert(m == 0 && keys == nil)
	} else {
		vassert(m >= 1 && m <= 16)
		vreach()
	}
}

// the script of created multi-signature addresses is read back
//vp:opt summ=-* bounded=one_key
func vlemma_multiback1(m byte, a []byte) {
	vassume(len(a) == 33)
	vspec_back(m, [][]byte{a})
}

//vp:opt summ=-* bounded=two_keys
func vlemma_multiback2(m byte, a, b []byte) {
	vassume(len(a) == 33 && len(b) == 33)
	vspec_back(m, [][]byte{a, b})
}

//vp:opt summ=-* bounded=three_keys
func vlemma_multiback3(m byte, a, b, c []byte) {
	vassume(len(a) == 33 && len(b) == 33 && len(c) == 33)
	vspec_back(m, [][]byte{a, b, c})
}

func vspec_back(m byte, keys [][]byte) {
	g, k, err := getMultiDetails(vspec_redeem(m, keys))
	if m < 1 || int(m) > len(keys) {
		vassert(err != nil)
		vreach()
		return
	}
	vassert(err == nil && g == m && len(k) == len(keys))
	for i := 0; i < len(keys); i++ {
		veqs(k[i], hex.EncodeToString(keys[i]))
	}
	vreach()
}

// push of the redeem script
func vspec_push(r []byte, sw bool) []byte {
	if sw || len(r) < 0x4c {
		return append([]byte{byte(len(r))}, r...)
	}
	if len(r) < 0x100 {
		return append([]byte{0x4c, byte(len(r))}, r...)
	}
	return append([]byte{0x4d, byte(len(r)), byte(len(r) >> 8)}, r...)
}

func vspec_whole(body []byte, sw bool) []byte {
	if sw {
		return body
	}
	if len(body) < 0xfd {
		return append([]byte{byte(len(body))}, body...)
	}
	return append([]byte{0xfd, byte(len(body)), byte(len(body) >> 8)}, body...)
}

// the unlocking script of an m-of-3 input: empty item, the first m signatures in key order, the redeem script;
// refused when fewer signatures than required are there or one of them is malformed
//vp:opt opaque=encodeSignatureToScript bounded=three_keys
func vlemma_multiscript(req byte, a, b, c MultiTx, redeem []byte, sw bool) {
	vassume(req >= 1 && req <= 3 && len(redeem) <= 520)
	t := TxHash{"", req, nil, []MultiTx{a, b, c}}
	s, err := t.encodeToScript(redeem, sw)
	var sigs []byte
	n := byte(0)
	for i := 0; i < 3; i++ {
		x := t.Multi[i].SigPub
		if x.Pubkey == nil && x.Signature == nil {
			continue
		}
		if len(x.Pubkey) != 33 || len(x.Signature) != 64 {
			vassert(err != nil && s == nil)
			vreach()
			return
		}
		if n < req {
			sigs = append(sigs, x.encodeSignatureToScript(t.Multi[i].SigType)...)
		}
		n++
	}
	if n < req || redeem == nil {
		vassert(err != nil && s == nil)
		vreach()
		return
	}
	vassert(err == nil)
	body := append([]byte{0}, sigs...)
	body = append(body, vspec_push(redeem, sw)...)
	vassume(len(body) < 65536)
	veqb(s, vspec_whole(body, sw))
	vreach()
}

// parsing a 2-of-3 script in either form: exactly its signatures and keys; anything that is not complete and exact is refused
//vp:opt opaque=decodeSignatureFromScript summ=-* bounded=three_keys
func vlemma_multiparse(e, f, a, b, c []byte, sw bool, tail []byte) {
	vassume(len(e) >= 9 && len(e) <= 74 && int(e[0]) == len(e)-1 && e[1] == 0x30)
	vassume(len(f) >= 9 && len(f) <= 74 && int(f[0]) == len(f)-1 && f[1] == 0x30)
	vassume(len(a) == 33 && len(b) == 33 && len(c) == 33 && len(tail) <= 2)
	r := vspec_redeem(2, [][]byte{a, b, c})
	body := append([]byte{0}, e...)
	body = append(body, f...)
	body = append(body, vspec_push(r, sw)...)
	s := append(vspec_whole(body, sw), tail...)
	sp, st, err := decodeMultiBytes(s)
	s1, t1, e1 := decodeSignatureFromScript(e)
	s2, t2, e2 := decodeSignatureFromScript(f)
	if e1 != nil || e2 != nil || len(tail) != 0 {
		vassert(err != nil && sp == nil && st == nil)
		vreach()
		return
	}
	vassert(err == nil && len(sp) == 3 && len(st) == 3)
	vassert(st[0] == t1 && st[1] == t2 && st[2] == 0)
	veqb(sp[0].Signature, s1)
	veqb(sp[1].Signature, s2)
	vassert(sp[2].Signature == nil)
	veqb(sp[0].Pubkey, a)
	veqb(sp[1].Pubkey, b)
	veqb(sp[2].Pubkey, c)
	vreach()
}

// no script crashes the parser, and success means as many types as entries
//vp:opt search=generated_scripts
func vlemma_multitotal(s []byte) {
	sp, st, err := decodeMultiBytes(s)
	if err != nil {
		vassert(sp == nil && st == nil)
		vreach()
		return
	}
	vassert(len(sp) == len(st))
}

// a witness input of a 1-of-n or 3-of-n address is written with item count 4, which is only right for 2-of-n
//vp:opt except=zencashTransaction
func vfinding_witnesscount() {
	in := TxIn{inType: TypeMultiSig, scriptMulti: []byte{0, 1, 0x30, 3, 0x51, 0x51, 0xae}}
	b, err := in.toSegwitBytes()
	vassert(err == nil && b[0] == 3)
}

// the redeem script of more than seven keys is written into a witness with its length cut to one byte
//vp:opt except=zencashTransaction
func vfinding_witnesslength() {
	sp := SignaturePubkey{make([]byte, 64), make([]byte, 33)}
	t := TxHash{"", 1, nil, []MultiTx{{"", 1, sp}}}
	s, err := t.encodeToScript(make([]byte, 275), true)
	vassert(err != nil || (s[len(s)-275-3] == 0xfd && s[len(s)-275-2] == 0x13 && s[len(s)-275-1] == 1))
}
