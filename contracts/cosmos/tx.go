//vp:packages cosmosTransaction evaioTransaction
//vp:prop P23
package PKG

import (
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"strconv"

	"github.com/blocktree/go-owcrypt"
)

func vsigned(pri, msg, sig []byte, curve uint32) bool {
	pub, r := owcrypt.GenPubkey(pri, curve)
	return r == owcrypt.SUCCESS && owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

func vverified(pub, msg, sig []byte, curve uint32) bool {
	return owcrypt.Verify(pub, nil, msg, sig, curve) == owcrypt.SUCCESS
}

// an amount of a coin: none when it is zero, else its decimal text and name
func vlemma_coin(denom string, v int64) {
	c := NewCoin(denom, v)
	if v == 0 {
		vassert(c.Amount == "" && c.Denom == "")
		vreach()
		return
	}
	veqs(c.Amount, strconv.FormatInt(v, 10))
	veqs(c.Denom, denom)
	vreach()
}

func vlemma_fee(gas int64, c []Coin, i int) {
	f := NewStdFee(gas, c)
	veqs(f.Gas, strconv.FormatInt(gas, 10))
	vassert(f.Amount != nil && len(f.Amount) == len(c))
	if i >= 0 && i < len(c) {
		veqs(f.Amount[i].Amount, c[i].Amount)
		veqs(f.Amount[i].Denom, c[i].Denom)
		vreach()
	}
	vreach()
}

func vlemma_message(ty, from, to string, c []Coin, i int) {
	m := NewMessage(ty, NewMsgSend(from, to, c))
	veqs(m.Type, ty)
	veqs(m.Value.FromAddress, from)
	veqs(m.Value.ToAddress, to)
	vassert(len(m.Value.Amount) == len(c))
	if i >= 0 && i < len(c) {
		veqs(m.Value.Amount[i].Amount, c[i].Amount)
		veqs(m.Value.Amount[i].Denom, c[i].Denom)
		vreach()
	}
}

// every requested value in its field; a fee without coins is an empty list
func vlemma_struct(chain, memo string, num, seq int, fee FeeStruct, m []Message, i int) {
	f := fee
	t := NewTxStruct(chain, memo, num, seq, &f, m)
	veqs(t.ChainID, chain)
	veqs(t.Memo, memo)
	veqs(t.AccountNumber, strconv.FormatInt(int64(num), 10))
	veqs(t.Sequence, strconv.FormatInt(int64(seq), 10))
	veqs(t.Fee.Gas, fee.Gas)
	vassert(len(t.Message) == len(m))
	if i >= 0 && i < len(m) {
		veqs(t.Message[i].Type, m[i].Type)
		veqs(t.Message[i].Value.FromAddress, m[i].Value.FromAddress)
		veqs(t.Message[i].Value.ToAddress, m[i].Value.ToAddress)
		vassert(len(t.Message[i].Value.Amount) == len(m[i].Value.Amount))
		vreach()
	}
	if len(fee.Amount) == 0 || fee.Amount[0].Amount == "" {
		vassert(t.Fee.Amount != nil && len(t.Fee.Amount) == 0)
		vreach()
		return
	}
	vassert(len(t.Fee.Amount) == len(fee.Amount))
	if i >= 0 && i < len(fee.Amount) {
		veqs(t.Fee.Amount[i].Amount, fee.Amount[i].Amount)
		veqs(t.Fee.Amount[i].Denom, fee.Amount[i].Denom)
		vreach()
	}
}

// the text to sign, written by hand: keys in alphabetical order, no spaces
func vspec_q(s string) string {
	b, _ := json.Marshal(s)
	return string(b)
}

func vspec_coins(c Coins) string {
	if c == nil {
		return "null"
	}
	s := "["
	for i := range c {
		if i > 0 {
			s += ","
		}
		s += `{"amount":` + vspec_q(c[i].Amount) + `,"denom":` + vspec_q(c[i].Denom) + "}"
	}
	return s + "]"
}

func vspec_fee(f FeeStruct) string {
	return `{"amount":` + vspec_coins(f.Amount) + `,"gas":` + vspec_q(f.Gas) + "}"
}

func vspec_msgs(m []Message) string {
	if m == nil {
		return "null"
	}
	s := "["
	for i := range m {
		if i > 0 {
			s += ","
		}
		v := m[i].Value
		s += `{"type":` + vspec_q(m[i].Type) + `,"value":{"amount":` + vspec_coins(v.Amount) + `,"from_address":` + vspec_q(v.FromAddress) + `,"to_address":` + vspec_q(v.ToAddress) + "}}"
	}
	return s + "]"
}

//vp:opt search=json
func vlemma_text(t TxStruct) {
	s, h, err := t.CreateEmptyTransactionAndHash()
	vassert(err == nil)
	veqs(s, `{"account_number":`+vspec_q(t.AccountNumber)+`,"chain_id":`+vspec_q(t.ChainID)+`,"fee":`+vspec_fee(t.Fee)+`,"memo":`+vspec_q(t.Memo)+`,"msgs":`+vspec_msgs(t.Message)+`,"sequence":`+vspec_q(t.Sequence)+"}")
	veqs(h, hex.EncodeToString(owcrypt.Hash([]byte(s), 0, owcrypt.HASH_ALG_SHA256)))
	vreach()
}

//vp:opt search=json
func vlemma_send(t TxStruct, sig string, pub []byte, ty, mode string) {
	r, err := t.CreateJsonForSend(sig, pub, ty, mode)
	b, e := hex.DecodeString(sig)
	if e != nil {
		vassert(err != nil && r == nil)
		return
	}
	vassert(err == nil)
	e64 := base64.StdEncoding.EncodeToString
	tx := `{"msg":` + vspec_msgs(t.Message) + `,"fee":` + vspec_fee(t.Fee) + `,"memo":` + vspec_q(t.Memo) +
		`,"signatures":[{"signature":` + vspec_q(e64(b)) + `,"pub_key":{"type":` + vspec_q(ty) + `,"value":` + vspec_q(e64(pub)) + "}" + vspec_sigtail(t) + "}]}"
	veqs(r.Raw, vspec_whole(tx, vspec_q(mode)))
	vreach()
}

// exactly the given hash is signed with the given key, with a low s
//vp:opt opaque=serilizeS
func vlemma_sign(h string, pri []byte) {
	p := vcopy(pri)
	s, err := SignTransactionHash(h, pri)
	m, e := hex.DecodeString(h)
	if e != nil || len(m) != 32 || len(pri) != 32 {
		vassert(err != nil && s == "")
		vreach()
		return
	}
	if err == nil {
		b, e := hex.DecodeString(s)
		vassert(e == nil && vsigned(p, m, b, owcrypt.ECC_CURVE_SECP256K1))
		vreach()
	}
}

// a signature is accepted exactly when it verifies over the hash of this text under the given key
func vlemma_verify(t, sig string, pub []byte) {
	k := vcopy(pub)
	ok := VerifyTransactionSig(t, sig, pub)
	b, e := hex.DecodeString(sig)
	if e != nil {
		vassert(!ok)
		vreach()
		return
	}
	vassert(ok == vverified(k, owcrypt.Hash([]byte(t), 0, owcrypt.HASH_ALG_SHA256), b, owcrypt.ECC_CURVE_SECP256K1))
	vreach()
}
