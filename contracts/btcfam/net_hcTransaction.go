//vp:packages hcTransaction
//vp:prop P09
package hcTransaction

// the address prefixes and constants of the networks
func vlemma_networks() {
	veqb(HCMainnetAddressPrefix.P2PKHPrefix, []byte{0x09, 0x7f})
	veqb(HCMainnetAddressPrefix.P2WPKHPrefix, []byte{0x7f})
	veqs(HCMainnetAddressPrefix.Bech32Prefix, "Hs")
	veqb(HCTestnetAddressPrefix.P2PKHPrefix, []byte{0x0f, 0x21})
	veqb(HCTestnetAddressPrefix.P2WPKHPrefix, []byte{0x21})
	veqs(HCTestnetAddressPrefix.Bech32Prefix, "Ts")
	vassert(DefaultTxVersion == uint32(2) && SequenceFinal == 0xffffffff && SequenceMaxBip125RBF == 0xfffffffd)
	vreach()
}

//vp:prop P08
//vp:opt tier=quick
func vlemma_hashtype() {
	vassert(SigHashAll == byte(1))
	vassert(DefaultHashType == 1)
	vreach()
}
