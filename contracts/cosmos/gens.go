//vp:packages cosmosTransaction evaioTransaction
//vp:prop P23
package PKG

import (
	"encoding/hex"
	"strconv"

	"github.com/blocktree/go-owcrypt"
)

var _ = owcrypt.Hash
var _ = strconv.Itoa
var _ = hex.EncodeToString

func vmk_str(g *vrand) string {
	if g.p(5) {
		return g.str()
	}
	return []string{"", "uatom", "cosmos1xv66sa5tlplm68j4fec6stdzszg3pcvswag06j", "memo <&> \"x\"", "é", "stake"}[g.n(6)]
}

func vmk_coins(g *vrand) []Coin {
	if g.p(10) {
		return nil
	}
	c := []Coin{}
	for n := g.n(4); n > 0; n-- {
		c = append(c, Coin{strconv.Itoa(g.n(100000)), vmk_str(g)})
	}
	if g.p(10) && len(c) > 0 {
		c[0].Amount = ""
	}
	return c
}

func vmk_msgs(g *vrand) []Message {
	if g.p(10) {
		return nil
	}
	c := []Message{}
	for n := g.n(4); n > 0; n-- {
		c = append(c, Message{vmk_str(g), MsgSend{vmk_coins(g), vmk_str(g), vmk_str(g)}})
	}
	return c
}

func vmk_fee(g *vrand) FeeStruct { return FeeStruct{vmk_coins(g), strconv.Itoa(g.n(100000))} }

func vgen_coin(g *vrand) (string, int64) {
	if g.p(10) {
		return vmk_str(g), 0
	}
	return vmk_str(g), int64(g.u64() >> uint(g.n(64)))
}

func vgen_fee(g *vrand) (int64, []Coin, int) { return int64(g.u64() >> uint(g.n(64))), vmk_coins(g), g.n(4) }
func vgen_message(g *vrand) (string, string, string, []Coin, int) {
	return vmk_str(g), vmk_str(g), vmk_str(g), vmk_coins(g), g.n(4)
}

func vgen_struct(g *vrand) (string, string, int, int, FeeStruct, []Message, int) {
	return vmk_str(g), vmk_str(g), int(g.u64() >> uint(g.n(64))), int(g.u64() >> uint(g.n(64))), vmk_fee(g), vmk_msgs(g), g.n(4)
}

func vgen_text(g *vrand) TxStruct {
	return TxStruct{strconv.Itoa(g.n(1000)), vmk_str(g), vmk_fee(g), vmk_str(g), vmk_msgs(g), strconv.Itoa(g.n(1000))}
}

func vmk_hex(g *vrand, n int) string {
	b := g.bytes(n)
	if g.p(5) {
		b = g.mutb(b)
	}
	s := vhexs(b)
	if g.p(4) {
		s = string(g.mutb([]byte(s)))
	}
	return s
}

func vgen_send(g *vrand) (TxStruct, string, []byte, string, string) {
	return vgen_text(g), vmk_hex(g, 64), g.bytes(33), vmk_str(g), vmk_str(g)
}

func vgen_sign(g *vrand) (string, []byte) { return vmk_hex(g, 32), g.bytes(32) }

func vgen_verify(g *vrand) (string, string, []byte) {
	t := vmk_str(g)
	k := g.bytes(32)
	pub, _ := owcrypt.GenPubkey(k, owcrypt.ECC_CURVE_SECP256K1)
	h := owcrypt.Hash([]byte(t), 0, owcrypt.HASH_ALG_SHA256)
	if g.p(10) {
		t += "x"
	}
	sig, _, _ := owcrypt.Signature(k, nil, h, owcrypt.ECC_CURVE_SECP256K1)
	if g.p(10) {
		sig = g.mutb(sig)
	}
	if g.p(10) {
		pub = g.mutb(pub)
	}
	return t, hex.EncodeToString(sig), pub
}
