//vp:packages cxcTransaction
//vp:prop P09
package cxcTransaction

// the address prefixes and constants of the networks
func vlemma_networks() {
	veqb(BTCMainnetAddressPrefix.P2PKHPrefix, []byte{0x00})
	veqb(BTCMainnetAddressPrefix.P2WPKHPrefix, []byte{0x05})
	veqs(BTCMainnetAddressPrefix.Bech32Prefix, "bc")
	veqb(BTCTestnetAddressPrefix.P2PKHPrefix, []byte{0x6F})
	veqb(BTCTestnetAddressPrefix.P2WPKHPrefix, []byte{0xC4})
	veqs(BTCTestnetAddressPrefix.Bech32Prefix, "tb")
	veqb(BCHMainnetAddressPrefix.P2PKHPrefix, []byte{0x00})
	veqb(BCHMainnetAddressPrefix.P2WPKHPrefix, []byte{0x05})
	veqs(BCHMainnetAddressPrefix.Bech32Prefix, "bc")
	veqb(BCHTestnetAddressPrefix.P2PKHPrefix, []byte{0x6F})
	veqb(BCHTestnetAddressPrefix.P2WPKHPrefix, []byte{0xC4})
	veqs(BCHTestnetAddressPrefix.Bech32Prefix, "tb")
	veqb(LTCMainnetAddressPrefix.P2PKHPrefix, []byte{0x30})
	veqb(LTCMainnetAddressPrefix.P2WPKHPrefix, []byte{0x05})
	veqs(LTCMainnetAddressPrefix.Bech32Prefix, "ltc")
	veqb(LTCTestnetAddressPrefix.P2PKHPrefix, []byte{0x6F})
	veqb(LTCTestnetAddressPrefix.P2WPKHPrefix, []byte{0xC4})
	veqs(LTCTestnetAddressPrefix.Bech32Prefix, "tltc")
	veqb(ZECMainnetAddressPrefix.P2PKHPrefix, []byte{0x1C, 0xB8})
	veqb(ZECMainnetAddressPrefix.P2WPKHPrefix, []byte{0x1C, 0xBD})
	veqs(ZECMainnetAddressPrefix.Bech32Prefix, "")
	veqb(ZECTestnetAddressPrefix.P2PKHPrefix, []byte{0x1D, 0x25})
	veqb(ZECTestnetAddressPrefix.P2WPKHPrefix, []byte{0x1C, 0xBA})
	veqs(ZECTestnetAddressPrefix.Bech32Prefix, "")
	vassert(DefaultTxVersion == uint32(1) && SequenceFinal == 0xffffffff && SequenceMaxBip125RBF == 0xfffffffd)
	vreach()
}

//vp:prop P08
//vp:opt tier=quick
func vlemma_hashtype() {
	vassert(SigHashAll == byte(1))
	vassert(DefaultHashType == 1)
	vreach()
}
