//vp:packages addressEncoder
//vp:deps addressEncoder/bech32 addressEncoder/bech32m addressEncoder/base32PolyMod addressEncoder/eip55
//vp:prop P04
package PKG

func vlead(a, p string) bool {
	for i := 0; i < len(p); i++ {
		if a[i] != p[i] {
			return false
		}
	}
	return true
}

// an address of a type must decode under exactly that type
func vchk(ok bool, err error, a string, t AddressType) {
	_, e := AddressDecode(a, t)
	vassert(ok == (e == nil))
	vassert(ok == (err == nil))
	vreach()
}

//vp:opt opaque=AddressDecode
func vlemma_check_btc(a string) {
	ok, err := AddressCheck(a, "BTC")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "1") {
		vchk(ok, err, a, BTC_mainnetAddressP2PKH)
		return
	}
	if vlead(a, "3") {
		vchk(ok, err, a, BTC_mainnetAddressP2SH)
		return
	}
	if vlead(a, "bc") {
		vchk(ok, err, a, BTC_mainnetAddressBech32V0)
		return
	}
	if vlead(a, "m") {
		vchk(ok, err, a, BTC_testnetAddressP2PKH)
		return
	}
	if vlead(a, "n") {
		vchk(ok, err, a, BTC_testnetAddressP2PKH)
		return
	}
	if vlead(a, "2") {
		vchk(ok, err, a, BTC_testnetAddressP2SH)
		return
	}
	if vlead(a, "tb") {
		vchk(ok, err, a, BTC_testnetAddressBech32V0)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_btc(g *vrand) string {
	ts := []AddressType{BTC_mainnetAddressP2PKH, BTC_mainnetAddressP2SH, BTC_mainnetAddressBech32V0, BTC_testnetAddressP2PKH, BTC_testnetAddressP2PKH, BTC_testnetAddressP2SH, BTC_testnetAddressBech32V0}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_zec(a string) {
	ok, err := AddressCheck(a, "ZEC")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "t1") {
		vchk(ok, err, a, ZEC_mainnet_t_AddressP2PKH)
		return
	}
	if vlead(a, "t3") {
		vchk(ok, err, a, ZEC_mainnet_t_AddressP2SH)
		return
	}
	if vlead(a, "tm") {
		vchk(ok, err, a, ZEC_testnet_t_AddressP2PKH)
		return
	}
	if vlead(a, "t2") {
		vchk(ok, err, a, ZEC_testnet_t_AddressP2SH)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_zec(g *vrand) string {
	ts := []AddressType{ZEC_mainnet_t_AddressP2PKH, ZEC_mainnet_t_AddressP2SH, ZEC_testnet_t_AddressP2PKH, ZEC_testnet_t_AddressP2SH}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_ltc(a string) {
	ok, err := AddressCheck(a, "LTC")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "L") {
		vchk(ok, err, a, LTC_mainnetAddressP2PKH)
		return
	}
	if vlead(a, "3") {
		vchk(ok, err, a, LTC_mainnetAddressP2SH)
		return
	}
	if vlead(a, "M") {
		vchk(ok, err, a, LTC_mainnetAddressP2SH2)
		return
	}
	if vlead(a, "ltc") {
		vchk(ok, err, a, LTC_mainnetAddressBech32V0)
		return
	}
	if vlead(a, "m") {
		vchk(ok, err, a, LTC_testnetAddressP2PKH)
		return
	}
	if vlead(a, "n") {
		vchk(ok, err, a, LTC_testnetAddressP2PKH)
		return
	}
	if vlead(a, "2") {
		vchk(ok, err, a, LTC_testnetAddressP2SH)
		return
	}
	if vlead(a, "tltc") {
		vchk(ok, err, a, LTC_testnetAddressBech32V0)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_ltc(g *vrand) string {
	ts := []AddressType{LTC_mainnetAddressP2PKH, LTC_mainnetAddressP2SH, LTC_mainnetAddressP2SH2, LTC_mainnetAddressBech32V0, LTC_testnetAddressP2PKH, LTC_testnetAddressP2PKH, LTC_testnetAddressP2SH, LTC_testnetAddressBech32V0}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_bch(a string) {
	ok, err := AddressCheck(a, "BCH")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "1") {
		vchk(ok, err, a, BCH_mainnetAddressLegacy)
		return
	}
	if vlead(a, "bitcoincash:") {
		vchk(ok, err, a, BCH_mainnetAddressCash)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_bch(g *vrand) string {
	ts := []AddressType{BCH_mainnetAddressLegacy, BCH_mainnetAddressCash}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_xtz(a string) {
	ok, err := AddressCheck(a, "XTZ")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "tz1") {
		vchk(ok, err, a, XTZ_mainnetAddress_tz1)
		return
	}
	if vlead(a, "tz2") {
		vchk(ok, err, a, XTZ_mainnetAddress_tz2)
		return
	}
	if vlead(a, "tz3") {
		vchk(ok, err, a, XTZ_mainnetAddress_tz3)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_xtz(g *vrand) string {
	ts := []AddressType{XTZ_mainnetAddress_tz1, XTZ_mainnetAddress_tz2, XTZ_mainnetAddress_tz3}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_hc(a string) {
	ok, err := AddressCheck(a, "HC")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "Hs") {
		vchk(ok, err, a, HC_mainnetPublicAddress)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_hc(g *vrand) string {
	ts := []AddressType{HC_mainnetPublicAddress}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_qtum(a string) {
	ok, err := AddressCheck(a, "QTUM")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "Q") {
		vchk(ok, err, a, QTUM_mainnetAddressP2PKH)
		return
	}
	if vlead(a, "M") {
		vchk(ok, err, a, QTUM_mainnetAddressP2SH)
		return
	}
	if vlead(a, "q") {
		vchk(ok, err, a, QTUM_testnetAddressP2PKH)
		return
	}
	if vlead(a, "m") {
		vchk(ok, err, a, QTUM_testnetAddressP2SH)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_qtum(g *vrand) string {
	ts := []AddressType{QTUM_mainnetAddressP2PKH, QTUM_mainnetAddressP2SH, QTUM_testnetAddressP2PKH, QTUM_testnetAddressP2SH}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_dcrd(a string) {
	ok, err := AddressCheck(a, "DCRD")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "Ds") {
		vchk(ok, err, a, DCRD_mainnetAddressP2PKH)
		return
	}
	if vlead(a, "bg") {
		vchk(ok, err, a, DCRD_mainnetAddressP2PK)
		return
	}
	if vlead(a, "De") {
		vchk(ok, err, a, DCRD_mainnetAddressPKHEdwards)
		return
	}
	if vlead(a, "DS") {
		vchk(ok, err, a, DCRD_mainnetAddressPKHSchnorr)
		return
	}
	if vlead(a, "Dc") {
		vchk(ok, err, a, DCRD_mainnetAddressP2SH)
		return
	}
	if vlead(a, "24") {
		vchk(ok, err, a, DCRD_mainnetAddressPrivate)
		return
	}
	if vlead(a, "Ts") {
		vchk(ok, err, a, DCRD_testnetAddressP2PKH)
		return
	}
	if vlead(a, "2F") {
		vchk(ok, err, a, DCRD_testnetAddressP2PK)
		return
	}
	if vlead(a, "Te") {
		vchk(ok, err, a, DCRD_testnetAddressPKHEdwards)
		return
	}
	if vlead(a, "TS") {
		vchk(ok, err, a, DCRD_testnetAddressP2PKHSchnorr)
		return
	}
	if vlead(a, "Tc") {
		vchk(ok, err, a, DCRD_testnetAddressP2SH)
		return
	}
	if vlead(a, "25") {
		vchk(ok, err, a, DCRD_testnetAddressPrivate)
		return
	}
	if vlead(a, "Ss") {
		vchk(ok, err, a, DCRD_simnetAddressP2PKH)
		return
	}
	if vlead(a, "2D") {
		vchk(ok, err, a, DCRD_simnetAddressP2PK)
		return
	}
	if vlead(a, "Se") {
		vchk(ok, err, a, DCRD_simnetAddressPKHEdwards)
		return
	}
	if vlead(a, "SS") {
		vchk(ok, err, a, DCRD_simnetAddressPKHSchnorr)
		return
	}
	if vlead(a, "Sc") {
		vchk(ok, err, a, DCRD_simnetAddressP2SH)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_dcrd(g *vrand) string {
	ts := []AddressType{DCRD_mainnetAddressP2PKH, DCRD_mainnetAddressP2PK, DCRD_mainnetAddressPKHEdwards, DCRD_mainnetAddressPKHSchnorr, DCRD_mainnetAddressP2SH, DCRD_mainnetAddressPrivate, DCRD_testnetAddressP2PKH, DCRD_testnetAddressP2PK, DCRD_testnetAddressPKHEdwards, DCRD_testnetAddressP2PKHSchnorr, DCRD_testnetAddressP2SH, DCRD_testnetAddressPrivate, DCRD_simnetAddressP2PKH, DCRD_simnetAddressP2PK, DCRD_simnetAddressPKHEdwards, DCRD_simnetAddressPKHSchnorr, DCRD_simnetAddressP2SH}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_nas(a string) {
	ok, err := AddressCheck(a, "NAS")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "n1") {
		vchk(ok, err, a, NAS_AccountAddress)
		return
	}
	if vlead(a, "n2") {
		vchk(ok, err, a, NAS_SmartContractAddress)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_nas(g *vrand) string {
	ts := []AddressType{NAS_AccountAddress, NAS_SmartContractAddress}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_trx(a string) {
	ok, err := AddressCheck(a, "TRX")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "T") {
		vchk(ok, err, a, TRON_mainnetAddress)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_trx(g *vrand) string {
	ts := []AddressType{TRON_mainnetAddress}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_icx(a string) {
	ok, err := AddressCheck(a, "ICX")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "hx") {
		vchk(ok, err, a, ICX_walletAddress)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_icx(g *vrand) string {
	ts := []AddressType{ICX_walletAddress}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_vsys(a string) {
	ok, err := AddressCheck(a, "VSYS")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	if vlead(a, "A") {
		vchk(ok, err, a, VSYS_mainnetAddress)
		return
	}
	vassert(!ok && err != nil)
	vreach()
}

func vgen_check_vsys(g *vrand) string {
	ts := []AddressType{VSYS_mainnetAddress}
	return vgen_any(g, ts[g.n(len(ts))])
}

//vp:opt opaque=AddressDecode
func vlemma_check_eth(a string) {
	ok, err := AddressCheck(a, "ETH")
	if len(a) < 12 {
		vassert(!ok && err != nil)
		vreach()
		return
	}
	vchk(ok, err, a, ETH_mainnetPublicAddress)
}

func vgen_check_eth(g *vrand) string { return vgen_any(g, ETH_mainnetPublicAddress) }

// a currency without rules is not judged
func vlemma_check_other(a string, k int) {
	s := "XRP"
	if k == 1 {
		s = ""
	} else if k == 2 {
		s = "btc"
	}
	ok, err := AddressCheck(a, s)
	vassert(ok && err == nil)
	vreach()
}

// an address of type t, damaged now and then
func vgen_any(g *vrand, t AddressType) string {
	n := t.HashLen
	if g.p(20) && t.EncodeType == "base58" {
		t.Prefix = g.bytes(len(t.Prefix))
	}
	h := g.bytes(n)
	if t.EncodeType == "base32PolyMod" {
		h[0] = 0
	}
	a := AddressEncode(h, t)
	if g.p(30) {
		a = string(g.mutb([]byte(a)))
	}
	return a
}
