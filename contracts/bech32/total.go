//vp:packages btcTransaction hcTransaction zencashTransaction cxcTransaction omniTransaction btcLikeTxDriver cosmosTransaction evaioTransaction addressEncoder/bech32
//vp:prop P03
package PKG

func vopq_shl5(v []int8) []int8 { return append([]int8{}, v...) }

// byteShl5: defined for at least one byte, keeps the length (vlemma_b32_shl_total)
func vcontract_shl5(in *[]int8) {
	vassert(len(*in) >= 1)
	t := vopq_shl5(*in)
	vassume(len(t) == len(*in))
	copy(*in, t)
}

//vp:opt opaque=vopq_shl5 contracts=byteShl5:vcontract_shl5
func vlemma_b32_unext_total(v []int8) {
	vassume(len(v) >= 2)
	r := unecxtendPayload(v)
	vassert(len(r) == len(v)*5/8)
	vreach()
}

func vlemma_b32_shl_total(v []int8) {
	vassume(len(v) >= 1)
	n := len(v)
	byteShl5(&v)
	vassert(len(v) == n)
	vreach()
}

func vlemma_b32_polymod_total(v []int8) {
	polyMod(v)
	vreach()
}
