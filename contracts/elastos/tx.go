//vp:packages elastosTransaction
//vp:prop P22
package PKG

import (
	"encoding/hex"

	"github.com/blocktree/go-owcrypt"
)

func vsigned(pri, msg, sig []byte, curve uint32) bool {
	pub, r := owcrypt.GenPubkey(pri, curve)
	return r == owcrypt.SUCCESS && owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vverified(pub, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vspec_rev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := 0; i < len(b); i++ {
		r[i] = b[len(b)-1-i]
	}
	return r
}

// a requested input: the previous transaction's id in wire order, output number, final sequence; malformed ids are refused
func vlemma_in(in Vin) {
	t, err := in.NewInput()
	id, e := hex.DecodeString(in.TxID)
	if e != nil || len(id) != 32 {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	vassert(err == nil)
	w := append(vspec_rev(id), byte(in.Vout), byte(in.Vout>>8), 255, 255, 255, 255)
	veqb(t.ToBytes(), w)
	vreach()
}

// a requested output: asset, amount, no lock, the recipient's hash
//vp:opt opaque=GetProgramHashFromAddress
func vlemma_out(out Vout) {
	t, err := out.NewOutput()
	id, e := hex.DecodeString(out.AssetID)
	p, e2 := GetProgramHashFromAddress(out.Address)
	if e != nil || len(id) != 32 || e2 != nil {
		vassert(err != nil && t == nil)
		vreach()
		return
	}
	vassert(err == nil)
	v := out.Amount
	w := append(vspec_rev(id), byte(v), byte(v>>8), byte(v>>16), byte(v>>24), byte(v>>32), byte(v>>40), byte(v>>48), byte(v>>56), 0, 0, 0, 0)
	veqb(t.ToBytes(), append(w, p...))
	vreach()
}

// a count below 128 is one byte
//vp:opt summ=-*
func vlemma_count(x uint64) {
	vassume(x < 128)
	veqb(uint64ToUvarint(x), []byte{byte(x)})
	vreach()
}

func vopq_uv(x uint64) []byte { return uint64ToUvarint(x) }

func vcontract_uv(x uint64) []byte {
	if x < 128 {
		return []byte{byte(x)}
	}
	return vopq_uv(x)
}

// the transaction: type, version, no attributes, every input and every output in order behind their numbers, no lock time; its hash goes with it
//vp:opt opaque=vopq_uv,Input).ToBytes,Output).ToBytes contracts=uint64ToUvarint:+vcontract_uv
func vlemma_bytes(t Transaction) {
	vassume(len(t.Inputs) < 128 && len(t.Outputs) < 128)
	vspec_present(t)
	b, h := t.GetEmptyAndHash()
	w := []byte{t.TxType, t.PayloadVersion, 0, byte(len(t.Inputs))}
	for i := 0; i < len(t.Inputs); i++ {
		w = append(w, t.Inputs[i].ToBytes()...)
	}
	w = append(w, byte(len(t.Outputs)))
	for i := 0; i < len(t.Outputs); i++ {
		w = append(w, t.Outputs[i].ToBytes()...)
	}
	w = append(w, t.LockTime...)
	veqb(b, w)
	veqb(h, owcrypt.Hash(w, 0, owcrypt.HASH_ALG_SHA256))
	vreach()
}

func vspec_present(t Transaction) {
	for i := 0; i < len(t.Inputs); i++ {
		vassume(t.Inputs[i] != nil)
	}
	for i := 0; i < len(t.Outputs); i++ {
		vassume(t.Outputs[i] != nil)
	}
}

// one input and one output per request, in order, all of them or none
//vp:opt opaque=NewInput,NewOutput
func vlemma_newtx(in []Vin, out []Vout, i int) {
	t, err := NewTransaction(in, out)
	if err != nil {
		vassert(t == nil)
		return
	}
	vassert(t.TxType == 2 && t.PayloadVersion == 0 && len(t.Inputs) == len(in) && len(t.Outputs) == len(out))
	veqb(t.LockTime, []byte{0, 0, 0, 0})
	if i >= 0 && i < len(in) {
		x, e := in[i].NewInput()
		vassert(e == nil && t.Inputs[i] != nil)
		veqb(t.Inputs[i].TxID, x.TxID)
		veqb(t.Inputs[i].Vout, x.Vout)
		veqb(t.Inputs[i].Sequence, x.Sequence)
		vreach()
	}
	if i >= 0 && i < len(out) {
		x, e := out[i].NewOutput()
		vassert(e == nil && t.Outputs[i] != nil)
		veqb(t.Outputs[i].AssetID, x.AssetID)
		veqb(t.Outputs[i].Amount, x.Amount)
		veqb(t.Outputs[i].Lock, x.Lock)
		veqb(t.Outputs[i].ProgramHash, x.ProgramHash)
		vreach()
	}
}

// exactly the given hash is signed with the given key
func vlemma_sign(h string, pri []byte) {
	p := vcopy(pri)
	s, err := SignRawTransaction(h, pri)
	m, e := hex.DecodeString(h)
	if e != nil {
		vassert(err != nil && s == nil)
		vreach()
		return
	}
	if err == nil {
		vassert(len(s) == 64 && vsigned(p, m, s, owcrypt.ECC_CURVE_SECP256R1))
		vreach()
	}
}

// one signature's part of the transaction
func vlemma_sigbytes(s SigPub) {
	b, err := s.ToBytes()
	if len(s.PublicKey) != 33 || len(s.Signature) != 64 {
		vassert(err != nil && b == nil)
		vreach()
		return
	}
	vassert(err == nil)
	w := append([]byte{65, 64}, s.Signature...)
	w = append(w, 35, 33)
	w = append(w, s.PublicKey...)
	veqb(b, append(w, 0xac))
	vreach()
}

// a transaction is combined exactly with signatures that all verify over the hash of these bytes under the keys they come with
//vp:opt opaque=vopq_uv contracts=uint64ToUvarint:+vcontract_uv
func vlemma_combine(s string, sp []SigPub, i int) {
	vassume(len(sp) < 128)
	ok, r := VerifyAndCombineRawTransaction(s, sp)
	b, e := hex.DecodeString(s)
	if !ok {
		vassert(r == "")
		vreach()
		return
	}
	vassert(e == nil)
	if i >= 0 && i < len(sp) {
		h := owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256)
		k := owcrypt.PointDecompress(sp[i].PublicKey, owcrypt.ECC_CURVE_SECP256R1)
		vassert(len(k) > 0 && vverified(k[1:], h, sp[i].Signature, owcrypt.ECC_CURVE_SECP256R1))
		vreach()
	}
	w := append(b, byte(len(sp)))
	for j := 0; j < len(sp); j++ {
		w = append(w, 65, 64)
		w = append(w, sp[j].Signature...)
		w = append(w, 35, 33)
		w = append(w, sp[j].PublicKey...)
		w = append(w, 0xac)
	}
	veqs(r, hex.EncodeToString(w))
	vreach()
}

// what is handed out: the transaction's bytes and, for every address that spends, the transaction's hash
//vp:opt opaque=NewTransaction,GetEmptyAndHash summ=-* bounded=at-most-three-inputs
func vlemma_create(in []Vin, out []Vout) {
	vassume(len(in) <= 3)
	s, h, err := CreateEmptyRawTransactionAndHash(in, out)
	t, e := NewTransaction(in, out)
	if len(in) == 0 || len(out) == 0 || e != nil {
		vassert(err != nil && s == "" && h == nil)
		vreach()
		return
	}
	vassert(err == nil)
	b, d := t.GetEmptyAndHash()
	veqs(s, hex.EncodeToString(b))
	n := 0
	for i := range in {
		old := false
		for j := 0; j < n; j++ {
			old = old || h[j].Address == in[i].Address
		}
		if !old {
			vassert(n < len(h))
			veqs(h[n].Address, in[i].Address)
			veqs(h[n].Hash, hex.EncodeToString(d))
			n++
		}
	}
	vassert(n == len(h))
	vreach()
}

// each spending address once, in the order of the inputs, each with the transaction's hash
//vp:opt search=lists-of-distinct-texts
func vlemma_addresses(in []Vin, out []Vout) {
	s, h, err := CreateEmptyRawTransactionAndHash(in, out)
	if err != nil {
		return
	}
	b, _ := hex.DecodeString(s)
	d := hex.EncodeToString(owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256))
	n := 0
	for i := range in {
		old := false
		for j := 0; j < i; j++ {
			old = old || in[j].Address == in[i].Address
		}
		if !old {
			vassert(n < len(h) && h[n].Address == in[i].Address && h[n].Hash == d)
			n++
		}
	}
	vassert(n == len(h))
	vreach()
}

func vmk_hex(g *vrand, n int) string {
	b := g.bytes(n)
	if g.p(4) {
		b = g.mutb(b)
	}
	s := vhexs(b)
	if g.p(3) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}

func vmk_to(g *vrand) string {
	d := append([]byte{AddressPrefix}, g.bytes(20)...)
	d = append(vcopy(d), owcrypt.Hash(d, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]...)
	if g.p(4) {
		d = g.mutb(d)
	}
	return Encode(d, BitcoinAlphabet)
}

func vgen_in(g *vrand) Vin   { return Vin{vmk_hex(g, 32), uint16(g.n(65536)), string("ABC"[g.n(3)])} }
func vgen_out(g *vrand) Vout { return Vout{vmk_hex(g, 32), g.u64() >> uint(g.n(64)), vmk_to(g)} }

func vmk_lists(g *vrand) (in []Vin, out []Vout) {
	for n := g.n(6); n >= 0; n-- {
		in = append(in, vgen_in(g))
	}
	for n := g.n(3); n >= 0; n-- {
		out = append(out, vgen_out(g))
	}
	return
}

func vgen_count(g *vrand) uint64 { return uint64(g.n(128)) }
func vgen_bytes(g *vrand) Transaction {
	in, out := vmk_lists(g)
	t, err := NewTransaction(in, out)
	vassume(err == nil)
	t.TxType = byte(g.n(256))
	return *t
}
func vgen_newtx(g *vrand) ([]Vin, []Vout, int) {
	in, out := vmk_lists(g)
	return in, out, g.n(5)
}
func vgen_create(g *vrand) ([]Vin, []Vout)    { return vmk_lists(g) }
func vgen_addresses(g *vrand) ([]Vin, []Vout) { return vmk_lists(g) }
func vgen_sign(g *vrand) (string, []byte)     { return vmk_hex(g, 32), g.bytes(32) }
func vgen_sigbytes(g *vrand) SigPub           { return SigPub{g.bytes(33), g.bytes(64)} }
func vgen_combine(g *vrand) (string, []SigPub, int) {
	s := vmk_hex(g, 40)
	b, _ := hex.DecodeString(s)
	h := owcrypt.Hash(b, 0, owcrypt.HASH_ALG_SHA256)
	sp := []SigPub{}
	for n := g.n(3); n >= 0; n-- {
		k := g.bytes(32)
		pub, _ := owcrypt.GenPubkey(k, owcrypt.ECC_CURVE_SECP256R1)
		if g.p(10) {
			h = g.bytes(32)
		}
		sig, _, _ := owcrypt.Signature(k, nil, h, owcrypt.ECC_CURVE_SECP256R1)
		pub = owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256R1)
		if g.p(10) {
			sig = g.mutb(sig)
		}
		if g.p(5) {
			pub = g.mutb(pub)
		}
		sp = append(sp, SigPub{pub, sig})
		if g.p(20) {
			// the same key once more, with a signature that does not verify
			sp = append(sp, SigPub{pub, g.mutb(sig)})
		}
	}
	return s, sp, g.n(3)
}
