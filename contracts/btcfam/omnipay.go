//vp:packages omniTransaction bitcoincashTransaction bitcoinsvTransaction
//vp:prop P09
package PKG

func vspec_be32(x uint32) []byte {
	return []byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

func vspec_be64(x uint64) []byte {
	return []byte{byte(x >> 56), byte(x >> 48), byte(x >> 40), byte(x >> 32), byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}
}

// the Omni message: "omni", version 0, type, body, in one OP_RETURN push
func vspec_opreturn(typ byte, body []byte) []byte {
	msg := append([]byte{0x6f, 0x6d, 0x6e, 0x69, 0, 0, 0, typ}, body...)
	if len(msg) < 76 {
		return append([]byte{0x6a, byte(len(msg))}, msg...)
	}
	if len(msg) <= 255 {
		return append([]byte{0x6a, 76, byte(len(msg))}, msg...)
	}
	return nil
}

// property and amount; the property; the ecosystem; nothing else
func vlemma_paySimple(od OmniStruct) {
	t := od.TxType
	if t == 0 || t == 22 {
		veqb(od.getPayload(), vspec_opreturn(byte(t), append(vspec_be32(od.PropertyId), vspec_be64(od.Amount)...)))
		vreach()
	} else if t == 53 || t == 70 || t == 71 || t == 72 {
		veqb(od.getPayload(), vspec_opreturn(byte(t), vspec_be32(od.PropertyId)))
		vreach()
	} else if t == 4 || t == 28 {
		veqb(od.getPayload(), vspec_opreturn(byte(t), []byte{od.Ecosystem}))
		vreach()
	} else if t != 55 && t != 56 && t != 185 && t != 186 {
		vassert(od.getPayload() == nil)
		vreach()
	}
}

// grant and revoke carry the memo (at most 255 bytes) and a NUL
func vlemma_payMemo(od OmniStruct) {
	vassume(od.TxType == 55 || od.TxType == 56)
	memo := od.Memo
	if len(memo) > 255 {
		memo = memo[:255]
	}
	body := append(append(append(vspec_be32(od.PropertyId), vspec_be64(od.Amount)...), memo...), 0)
	want := vspec_opreturn(byte(od.TxType), body)
	got := od.getPayload()
	if want == nil {
		vassert(got == nil)
		vreach()
		return
	}
	vassert(got != nil)
	veqb(got, want)
	vreach()
}

// freezing names the decoded address
//vp:opt opaque=DecodeCheck
func vlemma_payFreeze(od OmniStruct) {
	vassume(od.TxType == 185 || od.TxType == 186)
	got := od.getPayload()
	p, h, err := DecodeCheck(od.Address)
	if err != nil {
		vassert(got == nil)
		vreach()
		return
	}
	body := append(append(append(vspec_be32(od.PropertyId), vspec_be64(od.Amount)...), p...), h...)
	want := vspec_opreturn(byte(od.TxType), body)
	if want == nil {
		vassert(got == nil)
		vreach()
		return
	}
	vassert(got != nil)
	veqb(got, want)
	vreach()
}
