//vp:packages omniTransaction
//vp:prop P09
package omniTransaction

// the address prefixes and constants of the networks
func vlemma_networks() {
	veqb(BTCMainnetAddressPrefix.P2PKHPrefix, []byte{0x00})
	veqb(BTCMainnetAddressPrefix.P2WPKHPrefix, []byte{0x05})
	veqs(BTCMainnetAddressPrefix.Bech32Prefix, "bc")
	veqb(BTCTestnetAddressPrefix.P2PKHPrefix, []byte{0x6F})
	veqb(BTCTestnetAddressPrefix.P2WPKHPrefix, []byte{0xC4})
	veqs(BTCTestnetAddressPrefix.Bech32Prefix, "tb")
	vassert(DefaultTxVersion == uint32(2) && SequenceFinal == 0xffffffff && SequenceMaxBip125RBF == 0xfffffffd)
	vreach()
}

//vp:prop P08
//vp:opt tier=quick
func vlemma_hashtype() {
	vassert(SigHashAll == byte(1))
	vassert(DefaultHashType == 1)
	vreach()
}
