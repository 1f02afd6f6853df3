//vp:packages btcTransaction hcTransaction omniTransaction
//vp:prop P09
package PKG

func vspec_ver() []byte {
	return []byte{2, 0, 0, 0}
}
