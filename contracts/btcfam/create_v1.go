//vp:packages bitcoincashTransaction bitcoinsvTransaction cxcTransaction zencashTransaction
//vp:prop P09
package PKG

func vspec_ver() []byte {
	return []byte{1, 0, 0, 0}
}
