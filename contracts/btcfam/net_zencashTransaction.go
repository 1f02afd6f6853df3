//vp:packages zencashTransaction
//vp:prop P09
package zencashTransaction

// the address prefixes and constants of the networks
func vlemma_networks() {
	veqb(ZENMainnetAddressPrefix.P2PKHPrefix, []byte{0x20, 0x89})
	veqb(ZENMainnetAddressPrefix.P2WPKHPrefix, []byte{0x20, 0x96})
	veqs(ZENMainnetAddressPrefix.Bech32Prefix, "bc")
	vassert(DefaultTxVersion == uint32(1) && SequenceFinal == 0xffffffff && SequenceMaxBip125RBF == 0xfffffffd)
	vreach()
}

//vp:prop P08
//vp:opt tier=quick
func vlemma_hashtype() {
	vassert(SigHashAll == byte(1))
	vassert(DefaultHashType == 1)
	vreach()
}
