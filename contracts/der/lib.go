//vp:packages aliencoinTransaction vergeTransaction vollarTransaction hypercashTransaction mateverseTransaction rippleTransaction waykichainTransaction btcLikeTxDriver
//vp:prop P06
package PKG

// e is the minimal positive DER encoding of the 32-byte number x
func vspec_isder(e, x []byte) {
	n := len(e)
	vassert(n >= 1 && n <= 33)
	if n == 33 {
		vassert(e[0] == 0 && x[0] >= 0x80)
		veqb(e[1:], x)
		return
	}
	vassert(e[0] < 0x80)
	vassert(n == 1 || e[0] != 0 || e[1] >= 0x80)
	veqb(e, x[32-n:])
	for j := 0; j < 32-n; j++ {
		vassert(x[j] == 0)
	}
}

// b is one length byte, then the DER sequence of the two halves of o, then k further bytes covered by the length
func vspec_isdersig(b, o []byte, k int) {
	vassert(int(b[0])+1 == len(b) && b[1] == 0x30 && int(b[2])+2+k == int(b[0]) && b[3] == 2)
	n := int(b[4])
	vspec_isder(b[5:5+n], o[:32])
	vassert(b[5+n] == 2)
	m := int(b[6+n])
	vspec_isder(b[7+n:7+n+m], o[32:])
	vassert(7+n+m+k == len(b))
}
