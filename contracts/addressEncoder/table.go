//vp:packages addressEncoder
//vp:prop P04
package addressEncoder

const (
	vbase58abc = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
	vxrpabc    = "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz"
	vbech32abc = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
)

func vck_type(t AddressType, enc, abc, sum, hash string, n int, pre, suf []byte) {
	veqs(t.EncodeType, enc)
	veqs(t.Alphabet, abc)
	veqs(t.ChecksumType, sum)
	veqs(t.HashType, hash)
	vassert(t.HashLen == n)
	veqb(t.Prefix, pre)
	veqb(t.Suffix, suf)
}

// the parameters of the networks, as published
func vlemma_ae_table0() {
	vck_type(BTC_mainnetAddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x00}, nil)
	vck_type(BTC_mainnetAddressP2SH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x05}, nil)
	vck_type(BTC_mainnetAddressBech32V0, "bech32", vbech32abc, "bc", "h160", 20, []byte{0}, nil)
	vck_type(BTC_mainnetPrivateWIF, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0x80}, nil)
	vck_type(BTC_mainnetPrivateWIFCompressed, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01})
	vck_type(BTC_mainnetPublicBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xB2, 0x1E}, nil)
	vck_type(BTC_mainnetPrivateBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xAD, 0xE4}, nil)
	vck_type(BTC_testnetAddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x6F}, nil)
	vck_type(BTC_testnetAddressP2SH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0xC4}, nil)
	vck_type(BTC_testnetAddressBech32V0, "bech32", vbech32abc, "tb", "h160", 20, []byte{0}, nil)
	vck_type(BTC_testnetPrivateWIF, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0xEF}, nil)
	vck_type(BTC_testnetPrivateWIFCompressed, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01})
	vreach()
}

// the parameters of the networks, as published
func vlemma_ae_table1() {
	vck_type(BTC_testnetPublicBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x87, 0xCF}, nil)
	vck_type(BTC_testnetPrivateBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x83, 0x94}, nil)
	vck_type(XMR_mainnetPublicAddress, "XMR", vbase58abc, "keccak256", "", 64, []byte{0x12}, nil)
	vck_type(XMR_mainnetPublicSubAddress, "XMR", vbase58abc, "keccak256", "", 64, []byte{0x2A}, nil)
	vck_type(XMR_mainnetPublicIntegratedAddress, "XMR", vbase58abc, "keccak256", "payID", 72, []byte{0x13}, nil)
	vck_type(XMR_testnetPublicAddress, "XMR", vbase58abc, "keccak256", "", 64, []byte{0x35}, nil)
	vck_type(XMR_testnetPublicSubAddress, "XMR", vbase58abc, "keccak256", "", 64, []byte{0x3f}, nil)
	vck_type(XMR_testnetPublicIntegratedAddress, "XMR", vbase58abc, "keccak256", "payID", 72, []byte{0x36}, nil)
	vck_type(DOGE_multiSignAddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x16}, nil)
	vck_type(ONT_Address, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x17}, nil)
	vck_type(XRP_Address, "base58", vxrpabc, "doubleSHA256", "h160", 20, []byte{0x00}, nil)
	vck_type(BTM_mainnetAddressBech32V0, "bech32", vbech32abc, "bm", "h160", 20, []byte{0}, nil)
	vreach()
}

// the parameters of the networks, as published
func vlemma_ae_table2() {
	vck_type(BTM_testnetAddressBech32V0, "bech32", vbech32abc, "tm", "h160", 20, []byte{0}, nil)
	vck_type(ZEC_mainnet_t_AddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x1C, 0xB8}, nil)
	vck_type(ZEC_mainnet_t_AddressP2SH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x1C, 0xBD}, nil)
	vck_type(ZEC_testnet_t_AddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x1D, 0x25}, nil)
	vck_type(ZEC_testnet_t_AddressP2SH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x1C, 0xBA}, nil)
	vck_type(LTC_mainnetAddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x30}, nil)
	vck_type(LTC_mainnetAddressP2SH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x05}, nil)
	vck_type(LTC_mainnetAddressP2SH2, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x32}, nil)
	vck_type(LTC_mainnetAddressBech32V0, "bech32", vbech32abc, "ltc", "h160", 20, []byte{0}, nil)
	vck_type(LTC_mainnetPrivateWIF, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0xB0}, nil)
	vck_type(LTC_mainnetPrivateWIFCompressed, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0xB0}, []byte{0x01})
	vck_type(LTC_mainnetPublicBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xB2, 0x1E}, nil)
	vreach()
}

// the parameters of the networks, as published
func vlemma_ae_table3() {
	vck_type(LTC_mainnetPrivateBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xAD, 0xE4}, nil)
	vck_type(LTC_testnetAddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x6F}, nil)
	vck_type(LTC_testnetAddressP2SH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0xC4}, nil)
	vck_type(LTC_testnetAddressP2SH2, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x3A}, nil)
	vck_type(LTC_testnetAddressBech32V0, "bech32", vbech32abc, "tltc", "h160", 20, []byte{0}, nil)
	vck_type(LTC_testnetPrivateWIF, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0xEF}, nil)
	vck_type(LTC_testnetPrivateWIFCompressed, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01})
	vck_type(LTC_testnetPublicBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x87, 0xCF}, nil)
	vck_type(LTC_testnetPrivateBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x83, 0x94}, nil)
	vck_type(BCH_mainnetAddressLegacy, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x00}, nil)
	vck_type(BCH_mainnetAddressCash, "base32PolyMod", vbech32abc, "bitcoincash", "h160", 21, nil, nil)
	vck_type(XTZ_mainnetAddress_tz1, "base58", vbase58abc, "doubleSHA256", "blake2b160", 20, []byte{0x06, 0xA1, 0x9F}, nil)
	vreach()
}

// the parameters of the networks, as published
func vlemma_ae_table4() {
	vck_type(XTZ_mainnetAddress_tz2, "base58", vbase58abc, "doubleSHA256", "blake2b160", 20, []byte{0x06, 0xA1, 0xA1}, nil)
	vck_type(XTZ_mainnetAddress_tz3, "base58", vbase58abc, "doubleSHA256", "blake2b160", 20, []byte{0x06, 0xA1, 0xA4}, nil)
	vck_type(XTZ_mainnetPublic_edpk, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0x0D, 0x0F, 0x25, 0xD9}, nil)
	vck_type(XTZ_mainnetPrivate_edsk, "base58", vbase58abc, "doubleSHA256", "", 64, []byte{0x0D, 0x0F, 0x3A, 0x07}, nil)
	vck_type(XTZ_mainnetPrivate_edsk2, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0x2B, 0xF6, 0x4E, 0x07}, nil)
	vck_type(XTZ_mainnetPrivate_spsk, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0x11, 0xA2, 0xE0, 0xC9}, nil)
	vck_type(XTZ_mainnetPrivate_p2sk, "base58", vbase58abc, "doubleSHA256", "blake2b160", 32, []byte{0x10, 0x51, 0xEE, 0xBD}, nil)
	vck_type(ETH_mainnetPublicAddress, "eip55", "", "", "keccak256", 32, nil, nil)
	vck_type(QTUM_mainnetAddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x3A}, nil)
	vck_type(QTUM_mainnetAddressP2SH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x32}, nil)
	vck_type(QTUM_mainnetPrivateWIF, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0x80}, nil)
	vck_type(QTUM_mainnetPrivateWIFCompressed, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01})
	vreach()
}

// the parameters of the networks, as published
func vlemma_ae_table5() {
	vck_type(QTUM_mainnetPublicBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xB2, 0x1E}, nil)
	vck_type(QTUM_mainnetPrivateBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x88, 0xAD, 0xE4}, nil)
	vck_type(QTUM_testnetAddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x78}, nil)
	vck_type(QTUM_testnetAddressP2SH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x6E}, nil)
	vck_type(QTUM_testnetPrivateWIF, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0xEF}, nil)
	vck_type(QTUM_testnetPrivateWIFCompressed, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0xEF}, []byte{0x01})
	vck_type(QTUM_testnetPublicBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x87, 0xCF}, nil)
	vck_type(QTUM_testnetPrivateBIP32, "base58", vbase58abc, "doubleSHA256", "", 74, []byte{0x04, 0x35, 0x83, 0x94}, nil)
	vck_type(DCRD_mainnetAddressP2PKH, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x3f}, nil)
	vck_type(DCRD_mainnetAddressP2PK, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x13, 0x86}, nil)
	vck_type(DCRD_mainnetAddressPKHEdwards, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x1f}, nil)
	vck_type(DCRD_mainnetAddressPKHSchnorr, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x01}, nil)
	vreach()
}

// the parameters of the networks, as published
func vlemma_ae_table6() {
	vck_type(DCRD_mainnetAddressP2SH, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x07, 0x1a}, nil)
	vck_type(DCRD_mainnetAddressPrivate, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x22, 0xde}, nil)
	vck_type(DCRD_testnetAddressP2PKH, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x0f, 0x21}, nil)
	vck_type(DCRD_testnetAddressP2PK, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x28, 0xf7}, nil)
	vck_type(DCRD_testnetAddressPKHEdwards, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x0f, 0x01}, nil)
	vck_type(DCRD_testnetAddressP2PKHSchnorr, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0xe3}, nil)
	vck_type(DCRD_testnetAddressP2SH, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0xfc}, nil)
	vck_type(DCRD_testnetAddressPrivate, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x23, 0x0e}, nil)
	vck_type(DCRD_simnetAddressP2PKH, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x91}, nil)
	vck_type(DCRD_simnetAddressP2PK, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x27, 0x6f}, nil)
	vck_type(DCRD_simnetAddressPKHEdwards, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x71}, nil)
	vck_type(DCRD_simnetAddressPKHSchnorr, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x53}, nil)
	vreach()
}

// the parameters of the networks, as published
func vlemma_ae_table7() {
	vck_type(DCRD_simnetAddressP2SH, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x0e, 0x6c}, nil)
	vck_type(DCRD_simnetAddressPrivate, "base58", vbase58abc, "doubleBlake256", "ripemd160", 20, []byte{0x23, 0x07}, nil)
	vck_type(NAS_AccountAddress, "base58", vbase58abc, "sha3_256", "sha3_256_ripemd160", 20, []byte{0x19, 0x57}, nil)
	vck_type(NAS_SmartContractAddress, "base58", vbase58abc, "sha3_256", "sha3_256_ripemd160", 20, []byte{0x19, 0x58}, nil)
	vck_type(TRON_mainnetAddress, "base58", vbase58abc, "doubleSHA256", "keccak256_last_twenty", 20, []byte{0x41}, nil)
	vck_type(TRON_testnetAddress, "base58", vbase58abc, "doubleSHA256", "keccak256_last_twenty", 20, []byte{0xa0}, nil)
	vck_type(ICX_walletAddress, "ICX", "", "hx", "sha3_256_last_twenty", 20, nil, nil)
	vck_type(VSYS_mainnetAddress, "base58", vbase58abc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x05, 0x4D}, nil)
	vck_type(VSYS_testnetAddress, "base58", vbase58abc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x05, 0x54}, nil)
	vck_type(EOS_mainnetPrivateWIF, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0x80}, nil)
	vck_type(EOS_mainnetPrivateWIFCompressed, "base58", vbase58abc, "doubleSHA256", "", 32, []byte{0x80}, []byte{0x01})
	vck_type(ATOM_mainnetAddress, "bech32", vbech32abc, "cosmos", "h160", 20, nil, nil)
	vreach()
}

// the parameters of the networks, as published
func vlemma_ae_table8() {
	vck_type(ATOM_testnetAddress, "bech32", vbech32abc, "cosmos", "h160", 20, nil, nil)
	vck_type(ELA_Address, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x21}, nil)
	vck_type(WICC_mainnetAddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x49}, nil)
	vck_type(WICC_testnetAddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x87}, nil)
	vck_type(TV_mainnetAddress, "base58", vbase58abc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x1D, 0x3B}, nil)
	vck_type(TV_testnetAddress, "base58", vbase58abc, "blake2b_and_keccak256_first_twenty", "blake2b_and_keccak256_first_twenty", 20, []byte{0x1D, 0x54}, nil)
	vck_type(HC_mainnetPublicAddress, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x09, 0x7F}, nil)
	vck_type(HC_mainnetAddressP2PK, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x19, 0xa4}, nil)
	vck_type(HC_mainnetAddressP2PKBliss, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x07, 0xc3}, nil)
	vck_type(HC_mainnetAddressP2PKH, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x09, 0x7f}, nil)
	vck_type(HC_mainnetAddressPKHEdwards, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x09, 0x60}, nil)
	vck_type(HC_mainnetAddressPKHSchnorr, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x09, 0x41}, nil)
	vreach()
}

// the parameters of the networks, as published
func vlemma_ae_table9() {
	vck_type(HC_mainnetAddressPKHBliss, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x09, 0x58}, nil)
	vck_type(HC_mainnetAddressP2SH, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x09, 0x5a}, nil)
	vck_type(HC_mainnetAddressPrivate, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x19, 0xab}, nil)
	vck_type(HC_testnetAddressP2PK, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x28, 0xf7}, nil)
	vck_type(HC_testnetAddressP2PKBliss, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0c, 0x66}, nil)
	vck_type(HC_testnetAddressP2PKH, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0f, 0x21}, nil)
	vck_type(HC_testnetAddressPKHEdwards, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0f, 0x01}, nil)
	vck_type(HC_testnetAddressP2PKHSchnorr, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0e, 0xe3}, nil)
	vck_type(HC_testnetAddressPKHBliss, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0e, 0xf9}, nil)
	vck_type(HC_testnetAddressP2SH, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0e, 0xfc}, nil)
	vck_type(HC_testnetAddressPrivate, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x23, 0x0e}, nil)
	vck_type(HC_simnetAddressP2PK, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x27, 0x6f}, nil)
	vreach()
}

// the parameters of the networks, as published
func vlemma_ae_table10() {
	vck_type(HC_simnetAddressP2PKBliss, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0b, 0xef}, nil)
	vck_type(HC_simnetAddressP2PKH, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0e, 0x91}, nil)
	vck_type(HC_simnetAddressPKHEdwards, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0e, 0x71}, nil)
	vck_type(HC_simnetAddressPKHSchnorr, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0e, 0x53}, nil)
	vck_type(HC_simnetAddressPKHBliss, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0e, 0x69}, nil)
	vck_type(HC_simnetAddressP2SH, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x0e, 0x6c}, nil)
	vck_type(HC_simnetAddressPrivate, "base58", vbase58abc, "doubleBlake256", "h160", 20, []byte{0x23, 0x07}, nil)
	vck_type(BNB_mainnetAddress, "bech32", vbech32abc, "bnb", "h160", 20, nil, nil)
	vck_type(BSV_mainnetAddressP2PKH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x00}, nil)
	vck_type(BSV_mainnetAddressP2SH, "base58", vbase58abc, "doubleSHA256", "h160", 20, []byte{0x05}, nil)
	vck_type(EVA_mainnetAddress, "bech32", vbech32abc, "eva", "h160", 20, nil, nil)
	vck_type(EVA_testnetAddress, "bech32", vbech32abc, "eva", "h160", 20, nil, nil)
	vreach()
}

// the parameters of the networks, as published
func vlemma_ae_table11() {
	vck_type(XCH_mainnetAddress, "bech32m", vbech32abc, "xch", "", 32, nil, nil)
	vreach()
}

func vlemma_ae_tablestr() {
	vck_type(EOS_mainnetPublic, "eos", vbase58abc, "ripemd160", "", 33, []byte("EOS"), nil)
	vck_type(AE_mainnetAddress, "aeternity", vbase58abc, "doubleSHA256", "", 32, []byte("ak_"), nil)
	vreach()
}
