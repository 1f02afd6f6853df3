//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction zencashTransaction
//vp:prop P12
package PKG

import (
	"encoding/hex"

	"github.com/blocktree/go-owcrypt"
)

func vspec_redeem(m byte, keys [][]byte) []byte {
	r := []byte{0x50 + m}
	for i := 0; i < len(keys); i++ {
		r = append(r, byte(len(keys[i])))
		r = append(r, keys[i]...)
	}
	return append(r, 0x50+byte(len(keys)), 0xae)
}

// m-of-n with 1 <= m <= n <= 16 and real keys gives the standard script and the script-hash address of exactly that script
//vp:opt opaque=EncodeCheck summ=CreateMultiSig,vspec_redeem
func vlemma_createmulti(m byte, keys [][]byte, sw bool, ap AddressPrefix, i int) {
	a, s, err := CreateMultiSig(m, keys, sw, ap)
	if m < 1 || int(m) > len(keys) || len(keys) > 16 {
		vassert(err != nil && a == "" && s == "")
		vreach()
		return
	}
	vassume(i >= 0 && i < len(keys))
	if len(keys[i]) != 33 && len(keys[i]) != 65 {
		vassert(err != nil && a == "" && s == "")
		vreach()
		return
	}
	if err != nil {
		vassert(a == "" && s == "")
		return
	}
	r := vspec_redeem(m, keys)
	vassert(len(s) <= 1040)
	veqs(s, hex.EncodeToString(r))
	h := owcrypt.Hash(r, 0, owcrypt.HASH_ALG_HASH160)
	if sw {
		h = owcrypt.Hash(append([]byte{0, 0x20}, owcrypt.Hash(r, 0, owcrypt.HASH_ALG_SHA256)...), 0, owcrypt.HASH_ALG_HASH160)
	}
	veqs(a, EncodeCheck(ap.P2WPKHPrefix, h))
	vreach()
}
