//vp:packages addressEncoder
//vp:deps addressEncoder/blake256 addressEncoder/bech32 addressEncoder/bech32m addressEncoder/base32PolyMod addressEncoder/eip55
//vp:prop P04
package PKG

import (
	"encoding/hex"
	"github.com/blocktree/go-owcdrivers/addressEncoder/base32PolyMod"
	"github.com/blocktree/go-owcdrivers/addressEncoder/bech32"
	"github.com/blocktree/go-owcdrivers/addressEncoder/bech32m"
	"github.com/blocktree/go-owcdrivers/addressEncoder/blake256"
	"github.com/blocktree/go-owcdrivers/addressEncoder/eip55"
	"github.com/blocktree/go-owcrypt"
)

// names of the checksum rules
func vck(k int) string {
	switch k {
	case 0:
		return "doubleSHA256"
	case 1:
		return "doubleBlake256"
	case 2:
		return "keccak256"
	case 3:
		return "sha3_256"
	case 4:
		return "blake2b_and_keccak256_first_twenty"
	}
	return "ripemd160"
}

func vspec_ck(d []byte, k int) []byte {
	switch k {
	case 0:
		return owcrypt.Hash(d, 0, owcrypt.HASH_ALG_DOUBLE_SHA256)[:4]
	case 1:
		return blake256.DoubleBlake256(d)[:4]
	case 2:
		return owcrypt.Hash(d, 0, owcrypt.HASH_ALG_KECCAK256)[:4]
	case 3:
		return owcrypt.Hash(d, 0, owcrypt.HASH_ALG_SHA3_256)[:4]
	case 4:
		return owcrypt.Hash(owcrypt.Hash(d, 32, owcrypt.HASH_ALG_BLAKE2B), 32, owcrypt.HASH_ALG_KECCAK256)[:4]
	}
	return owcrypt.Hash(d, 0, owcrypt.HASH_ALG_RIPEMD160)[:4]
}

// names of the payload hashes
func vhn(k int) string {
	switch k {
	case 0:
		return "h160"
	case 1:
		return "blake2b160"
	case 2:
		return "ripemd160"
	case 3:
		return "keccak256_ripemd160"
	case 4:
		return "sha3_256_ripemd160"
	case 5:
		return "keccak256"
	case 6:
		return "sha3_256_last_twenty"
	case 7:
		return "keccak256_last_twenty"
	}
	return "blake2b_and_keccak256_first_twenty"
}

func vspec_hash(d []byte, k int) []byte {
	switch k {
	case 0:
		return owcrypt.Hash(d, 0, owcrypt.HASH_ALG_HASH160)
	case 1:
		return owcrypt.Hash(d, 20, owcrypt.HASH_ALG_BLAKE2B)
	case 2:
		return owcrypt.Hash(d, 20, owcrypt.HASH_ALG_RIPEMD160)
	case 3:
		return owcrypt.Hash(d, 0, owcrypt.HASH_ALG_KECCAK256_RIPEMD160)
	case 4:
		return owcrypt.Hash(d, 0, owcrypt.HASH_ALG_SHA3_256_RIPEMD160)
	case 5:
		return owcrypt.Hash(d, 32, owcrypt.HASH_ALG_KECCAK256)
	case 6:
		return owcrypt.Hash(d, 32, owcrypt.HASH_ALG_SHA3_256)[12:32]
	case 7:
		return owcrypt.Hash(d, 32, owcrypt.HASH_ALG_KECCAK256)[12:32]
	}
	return owcrypt.Hash(owcrypt.Hash(d, 32, owcrypt.HASH_ALG_BLAKE2B), 32, owcrypt.HASH_ALG_KECCAK256)[:20]
}

func vopq_dblake(d []byte) []byte { return blake256.DoubleBlake256(d) }

// two rounds of blake256: 32 bytes
func vcontract_dblake(d []byte) []byte {
	h := vopq_dblake(d)
	vassume(len(h) == 32)
	return h
}

func valpha(xrp bool) string {
	if xrp {
		return XRPAlphabet
	}
	return BTCAlphabet
}

func vmk_type(enc, alpha string, k, h, n int, prefix, suffix []byte, sfx bool) AddressType {
	t := AddressType{EncodeType: enc, Alphabet: alpha, ChecksumType: vck(k), HashType: vhn(h), HashLen: n, Prefix: prefix}
	if sfx {
		t.Suffix = suffix
	}
	return t
}

// each checksum rule is the four leading bytes of its hash
//vp:opt opaque=vopq_dblake contracts=DoubleBlake256:vcontract_dblake
func vlemma_ae_checksum(d []byte, k int) {
	vassume(k >= 0 && k < 6)
	c := vcopy(d)
	veqb(calcChecksum(d, vck(k)), vspec_ck(c, k))
	veqb(CalcChecksum(d, vck(k)), vspec_ck(c, k))
	vreach()
}

// verification accepts exactly data ending in its checksum
//vp:opt opaque=vopq_dblake contracts=DoubleBlake256:vcontract_dblake
func vlemma_ae_verify(d []byte, k int) {
	vassume(k >= 0 && k < 6)
	r := verifyChecksum(d, vck(k))
	if len(d) < 4 {
		vassert(!r)
		vreach()
		return
	}
	vassert(r == vsame(d[len(d)-4:], vspec_ck(d[:len(d)-4], k)))
	vreach()
}

// unknown rules verify nothing
func vlemma_ae_unknown(d []byte) {
	vassert(!verifyChecksum(d, "md5"))
	vassert(!verifyChecksum(d, ""))
	vreach()
}

func vlemma_ae_hash(d []byte, h int) {
	vassume(h >= 0 && h < 9)
	c := vcopy(d)
	veqb(calcHash(d, vhn(h)), vspec_hash(c, h))
	vreach()
}

// base58 types: prefix, payload of the type's length, suffix, checksum
//vp:opt opaque=vopq_dblake,Base58Encode,NewBase58Alphabet contracts=DoubleBlake256:vcontract_dblake
func vlemma_ae_enc(hash, prefix, suffix []byte, sfx bool, k int, xrp bool) {
	vassume(k >= 0 && k < 6)
	n := len(hash)
	p, x, s := vcopy(prefix), vcopy(hash), vcopy(suffix)
	a := AddressEncode(hash, vmk_type("base58", valpha(xrp), k, 0, n, prefix, suffix, sfx))
	d := append(p, x...)
	if sfx {
		d = append(d, s...)
	}
	veqs(a, Base58Encode(append(vcopy(d), vspec_ck(d, k)...), NewBase58Alphabet(valpha(xrp))))
	vreach()
}

// base58 types: prefix, hash of a payload of another length, checksum
//vp:opt opaque=vopq_dblake,Base58Encode,NewBase58Alphabet contracts=DoubleBlake256:vcontract_dblake
func vlemma_ae_ench(hash, prefix []byte, n, h int, xrp bool) {
	vassume(h >= 0 && h < 9)
	vassume(n != len(hash))
	k := 0
	p, x := vcopy(prefix), vcopy(hash)
	a := AddressEncode(hash, vmk_type("base58", valpha(xrp), k, h, n, prefix, nil, false))
	x = vspec_hash(x, h)
	d := append(p, x...)
	veqs(a, Base58Encode(append(vcopy(d), vspec_ck(d, k)...), NewBase58Alphabet(valpha(xrp))))
	vreach()
}

// any string: refused, or the payload between prefix and suffix under a valid checksum
//vp:opt opaque=vopq_dblake,Base58Decode,NewBase58Alphabet contracts=DoubleBlake256:vcontract_dblake
func vlemma_ae_dec(a string, prefix []byte, n, k int) {
	vassume(k >= 0 && k < 6)
	t := vmk_type("base58", BTCAlphabet, k, 0, n, prefix, nil, false)
	r, err := AddressDecode(a, t)
	d, e := Base58Decode(a, NewBase58Alphabet(BTCAlphabet))
	if e != nil || len(d) < 4 {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	b := d[:len(d)-4]
	if !vsame(d[len(d)-4:], vspec_ck(b, k)) || len(b) < len(prefix) {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	if !vsame(b[:len(prefix)], prefix) || len(b)-len(prefix) != n {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(r, b[len(prefix):len(b)])
	vreach()
}

// any string: refused, or the payload between prefix and suffix under a valid checksum
//vp:opt opaque=vopq_dblake,Base58Decode,NewBase58Alphabet contracts=DoubleBlake256:vcontract_dblake
func vlemma_ae_decs(a string, prefix, suffix []byte, n int) {
	k := 0
	t := vmk_type("base58", XRPAlphabet, k, 0, n, prefix, suffix, true)
	r, err := AddressDecode(a, t)
	d, e := Base58Decode(a, NewBase58Alphabet(XRPAlphabet))
	sl := len(suffix)
	if e != nil || len(d) < 4 {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	b := d[:len(d)-4]
	if !vsame(d[len(d)-4:], vspec_ck(b, k)) || len(b) < len(prefix)+sl {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	if !vsame(b[:len(prefix)], prefix) || !vsame(b[len(b)-sl:], suffix) || len(b)-len(prefix)-sl != n {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(r, b[len(prefix):len(b)-sl])
	vreach()
}

// what was encoded comes back
//vp:opt opaque=vopq_dblake,Base58Encode,Base58Decode,NewBase58Alphabet inverse=Base58Decode:Base58Encode contracts=DoubleBlake256:vcontract_dblake
func vlemma_ae_rt(hash, prefix []byte, k int) {
	vassume(k >= 0 && k < 6)
	x := vcopy(hash)
	t := vmk_type("base58", BTCAlphabet, k, 0, len(hash), prefix, nil, false)
	r, err := AddressDecode(AddressEncode(hash, t), t)
	vassert(err == nil)
	veqb(r, x)
	vreach()
}

//vp:opt opaque=Base58Encode,Base58Decode,NewBase58Alphabet inverse=Base58Decode:Base58Encode
func vlemma_ae_rts(hash, prefix, suffix []byte, xrp bool) {
	x := vcopy(hash)
	t := vmk_type("base58", valpha(xrp), 0, 0, len(hash), prefix, suffix, true)
	r, err := AddressDecode(AddressEncode(hash, t), t)
	vassert(err == nil)
	veqb(r, x)
	vreach()
}

func vlemma_ae_icx(hash []byte, h int) {
	vassume(h >= 0 && h < 9)
	x := vcopy(hash)
	t := AddressType{EncodeType: "ICX", ChecksumType: "hx", HashType: vhn(h), HashLen: 20}
	a := AddressEncode(hash, t)
	if len(x) != 20 {
		x = vspec_hash(x, h)
	}
	veqs(a, "hx"+hex.EncodeToString(x))
	vreach()
}

func vlemma_ae_icx_rt(hash [20]byte) {
	x := hash
	r, err := AddressDecode(AddressEncode(hash[:], ICX_walletAddress), ICX_walletAddress)
	vassert(err == nil)
	veqb(r, x[:])
	vreach()
}

func vlemma_ae_icx_dec(a string) {
	r, err := AddressDecode(a, ICX_walletAddress)
	if len(a) != 42 || a[0] != 'h' || a[1] != 'x' {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	d, e := hex.DecodeString(a[2:])
	vassert((err == nil) == (e == nil))
	if e == nil {
		veqb(r, d)
		vassert(len(r) == 20)
	}
	vreach()
}

func vlemma_ae_eth(hash []byte) {
	x := vcopy(hash)
	a := AddressEncode(hash, ETH_mainnetPublicAddress)
	if len(x) != 32 {
		x = vspec_hash(x, 5)
	}
	veqs(a, hex.EncodeToString(x[12:]))
	r, err := AddressDecode(a, ETH_mainnetPublicAddress)
	vassert(err == nil)
	veqb(r, x[12:])
	r, err = AddressDecode("0x"+a, ETH_mainnetPublicAddress)
	vassert(err == nil)
	veqb(r, x[12:])
	vreach()
}

func vlemma_ae_eth_dec(a string) {
	r, err := AddressDecode(a, ETH_mainnetPublicAddress)
	b := a
	if len(a) > 1 && a[0] == '0' && a[1] == 'x' {
		b = a[2:]
	}
	d, e := hex.DecodeString(b)
	vassert((err == nil) == (e == nil && len(d) == 20))
	if err == nil {
		veqb(r, d)
	} else {
		vassert(r == nil)
	}
	vreach()
}

// EOS public keys and AE accounts: textual prefix, payload, checksum
//vp:opt opaque=Base58Encode,NewBase58Alphabet
func vlemma_ae_eos_enc(hash [33]byte) {
	x := hash
	a := AddressEncode(hash[:], EOS_mainnetPublic)
	veqs(a, "EOS"+Base58Encode(append(vcopy(x[:]), vspec_ck(x[:], 5)...), NewBase58Alphabet(BTCAlphabet)))
	vreach()
}

//vp:opt opaque=Base58Encode,NewBase58Alphabet
func vlemma_ae_ae_enc(hash [32]byte) {
	x := hash
	a := AddressEncode(hash[:], AE_mainnetAddress)
	veqs(a, "ak_"+Base58Encode(append(vcopy(x[:]), vspec_ck(x[:], 0)...), NewBase58Alphabet(BTCAlphabet)))
	vreach()
}

//vp:opt opaque=Base58Encode,Base58Decode,NewBase58Alphabet inverse=Base58Decode:Base58Encode
func vlemma_ae_eos_rt(hash [33]byte) {
	x := hash
	r, err := AddressDecode(AddressEncode(hash[:], EOS_mainnetPublic), EOS_mainnetPublic)
	vassert(err == nil)
	veqb(r, x[:])
	vreach()
}

//vp:opt opaque=Base58Encode,Base58Decode,NewBase58Alphabet inverse=Base58Decode:Base58Encode
func vlemma_ae_ae_rt(hash [32]byte) {
	x := hash
	r, err := AddressDecode(AddressEncode(hash[:], AE_mainnetAddress), AE_mainnetAddress)
	vassert(err == nil)
	veqb(r, x[:])
	vreach()
}

// the body of a key: base58 of n payload bytes and their checksum
func vspec_body(b string, k, n int) ([]byte, bool) {
	d, e := Base58Decode(b, NewBase58Alphabet(BTCAlphabet))
	if e != nil || len(d) != n+4 || !vsame(d[len(d)-4:], vspec_ck(d[:len(d)-4], k)) {
		return nil, false
	}
	return d[:len(d)-4], true
}

//vp:opt opaque=Base58Decode,NewBase58Alphabet
func vlemma_ae_eos_dec(b string, k int) {
	vassume(k >= 0 && k < 3)
	p := "EOS"
	if k == 1 {
		p = "PUB_K1_"
	} else if k == 2 {
		p = "PUB_R1_"
	}
	r, err := AddressDecode(p+b, EOS_mainnetPublic)
	d, ok := vspec_body(b, 5, 33)
	vassert((err == nil) == ok)
	if ok {
		veqb(r, d)
	} else {
		vassert(r == nil)
	}
	vreach()
}

//vp:opt opaque=Base58Decode,NewBase58Alphabet
func vlemma_ae_eos_other(a string) {
	vassume(len(a) > 0 && a[0] != 'E' && a[0] != 'P')
	r, err := AddressDecode(a, EOS_mainnetPublic)
	vassert(err != nil && r == nil)
	vreach()
}

//vp:opt opaque=Base58Decode,NewBase58Alphabet
func vlemma_ae_ae_dec(b string) {
	r, err := AddressDecode("ak_"+b, AE_mainnetAddress)
	d, ok := vspec_body(b, 0, 32)
	vassert((err == nil) == ok)
	if ok {
		veqb(r, d)
	} else {
		vassert(r == nil)
	}
	vreach()
}

//vp:opt summ=-*
func vlemma_ae_ae_other(a string) {
	vassume(len(a) < 3 || a[0] != 'a' || a[1] != 'k' || a[2] != '_')
	r, err := AddressDecode(a, AE_mainnetAddress)
	vassert(err != nil && r == nil)
	vreach()
}


// bech32 types: only addresses under the type's own human-readable part, payloads of 20 or 32 bytes
//vp:opt opaque=bech32.Decode
func vlemma_ae_b32_dec(a string) {
	t := BTC_mainnetAddressBech32V0
	r, err := AddressDecode(a, t)
	if len(a) < 3 || a[0]|32 != 'b' || a[1]|32 != 'c' || a[2] != '1' {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	d, e := bech32.Decode(a, t.Alphabet)
	if e != nil || len(d) != 20 && len(d) != 32 {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(r, d)
	vreach()
}

//vp:opt opaque=bech32.Encode
func vlemma_ae_b32_enc(hash []byte, cosmos bool) {
	vassume(len(hash) == 20 || len(hash) == 32)
	t := AddressType{"bech32", BTCBech32Alphabet, "bc", "h160", 20, []byte{0}, nil}
	if cosmos {
		t.ChecksumType, t.Prefix = "cosmos", nil
	}
	x := vcopy(hash)
	veqs(AddressEncode(hash, t), bech32.Encode(t.ChecksumType, BTCBech32Alphabet, x, t.Prefix))
	vreach()
}

//vp:opt opaque=base32PolyMod.Encode
func vlemma_ae_cash_enc(hash []byte) {
	x := vcopy(hash)
	a := AddressEncode(hash, BCH_mainnetAddressCash)
	if len(x) != 21 {
		x = vspec_hash(x, 0)
	}
	veqs(a, base32PolyMod.Encode("bitcoincash", BCHCashAlphabet, x))
	vreach()
}

//vp:opt opaque=base32PolyMod.Decode
func vlemma_ae_cash_dec(a string, n int) {
	t := BCH_mainnetAddressCash
	t.HashLen = n
	r, err := AddressDecode(a, t)
	d, e := base32PolyMod.Decode(a, t.Alphabet)
	if e != nil || len(d) != n {
		vassert(err != nil && r == nil)
		vreach()
		return
	}
	vassert(err == nil)
	veqb(r, d)
	vreach()
}

//vp:opt opaque=bech32m.Bech32mEncode,bech32m.Bech32mDecode
func vlemma_ae_xch(hash []byte, a string) {
	x := vcopy(hash)
	s := AddressEncode(hash, XCH_mainnetAddress)
	e, err := bech32m.Bech32mEncode("xch", x, XCHBech32Alphabet)
	if err != nil {
		veqs(s, "")
	} else {
		veqs(s, e)
	}
	r, err1 := AddressDecode(a, XCH_mainnetAddress)
	d, err2 := bech32m.Bech32mDecode(a, "xch", XCHBech32Alphabet)
	vassert((err1 == nil) == (err2 == nil))
	if err1 == nil {
		veqb(r, d)
	}
	vreach()
}

// standard addresses (pay to key hash, 20 zero bytes .. arbitrary) fall under their network's rule
func vlemma_ae_profiles() {
	vck1 := func(t AddressType, prefix ...byte) {
		vassert(t.EncodeType == "base58" && t.HashLen == 20 && t.Suffix == nil)
		veqb(t.Prefix, prefix)
	}
	vck1(BTC_mainnetAddressP2PKH, 0)
	vck1(BTC_mainnetAddressP2SH, 5)
	vck1(BTC_testnetAddressP2PKH, 0x6f)
	vck1(BTC_testnetAddressP2SH, 0xc4)
	vck1(LTC_mainnetAddressP2PKH, 0x30)
	vck1(LTC_mainnetAddressP2SH2, 0x32)
	vck1(DOGE_multiSignAddressP2PKH, 0x16)
	vck1(ONT_Address, 0x17)
	vck1(XRP_Address, 0)
	vck1(ZEC_mainnet_t_AddressP2PKH, 0x1c, 0xb8)
	vck1(ZEC_mainnet_t_AddressP2SH, 0x1c, 0xbd)
	vck1(ZEC_testnet_t_AddressP2PKH, 0x1d, 0x25)
	vck1(ZEC_testnet_t_AddressP2SH, 0x1c, 0xba)
	vck1(BCH_mainnetAddressLegacy, 0)
	vck1(BSV_mainnetAddressP2PKH, 0)
	vck1(BSV_mainnetAddressP2SH, 5)
	vck1(XTZ_mainnetAddress_tz1, 6, 0xa1, 0x9f)
	vck1(XTZ_mainnetAddress_tz2, 6, 0xa1, 0xa1)
	vck1(XTZ_mainnetAddress_tz3, 6, 0xa1, 0xa4)
	vck1(QTUM_mainnetAddressP2PKH, 0x3a)
	vck1(QTUM_mainnetAddressP2SH, 0x32)
	vck1(DCRD_mainnetAddressP2PKH, 7, 0x3f)
	vck1(DCRD_mainnetAddressP2SH, 7, 0x1a)
	vck1(HC_mainnetAddressP2PKH, 9, 0x7f)
	vck1(HC_mainnetAddressP2SH, 9, 0x5a)
	vck1(NAS_AccountAddress, 0x19, 0x57)
	vck1(NAS_SmartContractAddress, 0x19, 0x58)
	vck1(TRON_mainnetAddress, 0x41)
	vck1(VSYS_mainnetAddress, 5, 0x4d)
	vck1(TV_mainnetAddress, 0x1d, 0x3b)
	vck1(ELA_Address, 0x21)
	vck1(WICC_mainnetAddressP2PKH, 0x49)
	veqb(BTC_mainnetPrivateWIF.Prefix, []byte{0x80})
	veqb(BTC_mainnetPrivateWIFCompressed.Suffix, []byte{1})
	veqs(BTC_mainnetAddressP2PKH.ChecksumType, "doubleSHA256")
	veqs(DCRD_mainnetAddressP2PKH.ChecksumType, "doubleBlake256")
	veqs(HC_mainnetAddressP2PKH.ChecksumType, "doubleBlake256")
	veqs(NAS_AccountAddress.ChecksumType, "sha3_256")
	veqs(VSYS_mainnetAddress.ChecksumType, "blake2b_and_keccak256_first_twenty")
	veqs(XRP_Address.Alphabet, "rpshnaf39wBUDNEGHJKLM4PQRST7VWXYZ2bcdeCg65jkm8oFqi1tuvAxyz")
	veqs(BTC_mainnetAddressP2PKH.Alphabet, "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
	veqs(BTC_mainnetAddressP2PKH.HashType, "h160")
	veqs(TRON_mainnetAddress.HashType, "keccak256_last_twenty")
	veqs(XTZ_mainnetAddress_tz1.HashType, "blake2b160")
	veqs(NAS_AccountAddress.HashType, "sha3_256_ripemd160")
	veqs(BTC_mainnetAddressBech32V0.ChecksumType, "bc")
	veqs(LTC_mainnetAddressBech32V0.ChecksumType, "ltc")
	veqs(ATOM_mainnetAddress.ChecksumType, "cosmos")
	veqs(BNB_mainnetAddress.ChecksumType, "bnb")
	vreach()
}

// addresses of a type in the tests' sense: valid, damaged, other prefix, other payload length
func vgen_addr(g *vrand, t AddressType, n int) string {
	t.HashLen = n
	if g.p(20) {
		t.HashLen = g.n(40)
	}
	if g.p(20) {
		t.Prefix = g.bytes(g.n(4))
	}
	d := append(append(append([]byte{}, t.Prefix...), g.bytes(t.HashLen)...), t.Suffix...)
	d = append(d, calcChecksum(d, t.ChecksumType)...)
	if g.p(20) && len(d) > 0 {
		d[g.n(len(d))] ^= byte(1 + g.n(255))
	}
	if g.p(10) && len(d) > 0 {
		d = d[:g.n(len(d))]
	}
	return Base58Encode(d, NewBase58Alphabet(t.Alphabet))
}

func vgen_ae_dec(g *vrand) (string, []byte, int, int) {
	p, n, k := g.bytes(g.n(4)), g.n(33), g.n(6)
	return vgen_addr(g, vmk_type("base58", BTCAlphabet, k, 0, n, p, nil, false), n), p, n, k
}

func vgen_ae_decs(g *vrand) (string, []byte, []byte, int) {
	p, s, n := g.bytes(g.n(4)), g.bytes(g.n(3)), g.n(33)
	u := s
	if g.p(20) {
		u = g.bytes(g.n(3))
	}
	return vgen_addr(g, vmk_type("base58", XRPAlphabet, 0, 0, n, p, u, true), n), p, s, n
}

func vgen_ae_eos_dec(g *vrand) (string, int) {
	return vgen_addr(g, vmk_type("base58", BTCAlphabet, 5, 0, 33, nil, nil, false), 33), g.n(3)
}

func vgen_ae_ae_dec(g *vrand) string {
	return vgen_addr(g, vmk_type("base58", BTCAlphabet, 0, 0, 32, nil, nil, false), 32)
}

func vgen_ae_verify(g *vrand) ([]byte, int) {
	k := g.n(6)
	d := g.bytes(g.n(40))
	d = append(d, calcChecksum(d, vck(k))...)
	if g.p(40) {
		d[g.n(len(d))] ^= byte(1 + g.n(255))
	}
	return d, k
}

func vgen_ae_checksum(g *vrand) ([]byte, int) { return g.bytes(g.n(80)), g.n(6) }
func vgen_ae_hash(g *vrand) ([]byte, int)     { return g.bytes(g.n(80)), g.n(9) }
func vgen_ae_ench(g *vrand) ([]byte, []byte, int, int, bool) {
	return g.bytes(g.n(70)), g.bytes(g.n(4)), g.n(40), g.n(9), g.p(30)
}
func vgen_ae_enc(g *vrand) ([]byte, []byte, []byte, bool, int, bool) {
	return g.bytes(g.n(70)), g.bytes(g.n(4)), g.bytes(g.n(3)), g.p(50), g.n(6), g.p(30)
}
func vgen_ae_rt(g *vrand) ([]byte, []byte, int) { return g.bytes(g.n(70)), g.bytes(g.n(4)), g.n(6) }

func vgen_ae_icx_dec(g *vrand) string {
	b := []byte("hx" + hex.EncodeToString(g.bytes(20)))
	if g.p(40) {
		b = g.mutb(b)
	}
	return string(b)
}

func vgen_ae_eth_dec(g *vrand) string {
	b := []byte(hex.EncodeToString(g.bytes(20)))
	if g.p(40) {
		b = append([]byte("0x"), b...)
	}
	if g.p(40) {
		b = g.mutb(b)
	}
	return string(b)
}

func vgen_ae_b32_dec(g *vrand) string {
	h := [3]string{"bc", "tb", "bcx"}[g.n(3)]
	n := 20
	if g.p(40) {
		n = 32
	}
	b := []byte(bech32.Encode(h, BTCBech32Alphabet, g.bytes(n), []byte{0}))
	if g.p(30) {
		b = g.mutb(b)
	}
	return string(b)
}

func vgen_ae_cash_dec(g *vrand) (string, int) {
	n := 21
	if g.p(20) {
		n = g.n(30)
	}
	b := []byte(base32PolyMod.Encode("bitcoincash", BCHCashAlphabet, append([]byte{0}, g.bytes(20)...)))
	if g.p(30) {
		b = g.mutb(b)
	}
	return string(b), n
}

var _ = eip55.Eip55_encode
