//vp:packages btcTransaction bitcoincashTransaction bitcoinsvTransaction cxcTransaction hcTransaction omniTransaction zencashTransaction
//vp:prop P01
package PKG

import "encoding/hex"

func vlemma_le16(x uint16) {
	b := uint16ToLittleEndianBytes(x)
	vassert(len(b) == 2)
	vassert(uint16(b[0])|uint16(b[1])<<8 == x)
	vassert(littleEndianBytesToUint16(b) == x)
	vreach()
}

func vlemma_le64(x uint64) {
	b := uint64ToLittleEndianBytes(x)
	vassert(len(b) == 8)
	for i := 0; i < 8; i++ {
		vassert(b[i] == byte(x>>(8*uint(i))))
	}
	vassert(littleEndianBytesToUint64(b) == x)
	vreach()
}

func vlemma_le32(x uint32) {
	b := uint32ToLittleEndianBytes(x)
	vassert(len(b) == 4)
	vassert(uint32(b[0])|uint32(b[1])<<8|uint32(b[2])<<16|uint32(b[3])<<24 == x)
	vassert(littleEndianBytesToUint32(b) == x)
	vreach()
}

func vlemma_rev(b []byte) {
	o := vcopy(b)
	r := reverseBytes(b)
	veqb(r, vrev(o))
	vreach()
}

func vlemma_revhex(s string) {
	b, err := reverseHexToBytes(s)
	if err != nil {
		return
	}
	vassert(len(b)*2 == len(s))
	d, e2 := hex.DecodeString(s)
	vassert(e2 == nil)
	veqb(b, vrev(d))
	vreach()
}

func vlemma_cmp(a, b []byte) {
	if byteArrayCompare(a, b) {
		veqb(a, b)
		vreach()
	}
}

func vlemma_cmp2(a []byte) {
	vassert(byteArrayCompare(a, vcopy(a)))
	vreach()
}

func vlemma_hexrev(b []byte) {
	o := vcopy(b)
	s := reverseBytesToHex(b)
	veqs(s, hex.EncodeToString(vrev(o)))
	vreach()
}
