//vp:packages aliencoinTransaction vergeTransaction vollarTransaction
//vp:prop P15
package PKG

import (
	"encoding/hex"
	"strings"

	"github.com/blocktree/go-owcrypt"
)

var _ = strings.Join
var _ = hex.EncodeToString
var _ = owcrypt.Hash

func vmk_in(g *vrand) Vin {
	v := Vin{TxID: vhexs(g.bytes(32)), Vout: uint32(g.u64()), LockScript: vhexs(g.bytes(g.n(40)))}
	if g.p(10) {
		v.TxID = g.str()
	}
	if g.p(10) {
		v.LockScript = vhexs(g.bytes(g.n(300)))
	}
	return v
}

func vgen_newin(g *vrand) Vin { return vmk_in(g) }

func vmk_empty(g *vrand) string {
	n := g.n(3) + 1
	var t TxStruct
	t.Version = g.bytes(4)
	vmk_head(g, &t)
	var locks []string
	for i := 0; i < n; i++ {
		t.Vin = append(t.Vin, TxIn{TxID: g.bytes(32), Vout: g.bytes(4), Sequence: g.bytes(4)})
		locks = append(locks, vhexs(g.bytes(g.n(40))))
	}
	for i := 0; i < g.n(3)+1; i++ {
		t.Vout = append(t.Vout, vmk_out(g))
	}
	s := vhexs(t.ToBytes()) + ":" + strings.Join(locks, ":")
	if g.p(15) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}

func vgen_decode(g *vrand) string { return vmk_empty(g) }

func vmk_combine(g *vrand) (string, []SigPub, int) {
	s := vmk_empty(g)
	t, locks, err := DecodeTxStructRaw(s)
	if err != nil {
		return s, nil, 0
	}
	for i := range t.Vin {
		l, _ := hex.DecodeString(locks[i])
		t.Vin[i].LockScript = append([]byte{byte(len(l))}, l...)
	}
	h, err := t.GetHash()
	if err != nil {
		return s, nil, 0
	}
	var sp []SigPub
	for i := range h {
		m, _ := hex.DecodeString(h[i])
		k := g.bytes(32)
		k[0] &= 0x7f
		k[31] |= 1
		sig, _, _ := owcrypt.Signature(k, nil, m, owcrypt.ECC_CURVE_SECP256K1)
		pub, _ := owcrypt.GenPubkey(k, owcrypt.ECC_CURVE_SECP256K1)
		p := SigPub{Pubkey: owcrypt.PointCompress(pub, owcrypt.ECC_CURVE_SECP256K1), Signature: sig}
		if g.p(10) {
			p.Signature = g.mutb(p.Signature)
		}
		if g.p(5) {
			p.Pubkey = g.mutb(p.Pubkey)
		}
		sp = append(sp, p)
	}
	if g.p(10) && len(sp) > 1 {
		sp[0], sp[1] = sp[1], sp[0]
	}
	return s, sp, g.n(len(sp))
}

func vgen_combine(g *vrand) (string, []SigPub, int) { return vmk_combine(g) }

func vgen_combined(g *vrand) (string, []SigPub) {
	s, p, _ := vmk_combine(g)
	return s, p
}

func vgen_sign(g *vrand) (string, []byte) {
	if g.p(20) {
		return g.str(), g.blob()
	}
	return vhexs(g.bytes(32)), g.bytes(32)
}
