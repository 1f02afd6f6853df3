//vp:packages owkeychain
//vp:prop P13
package PKG

import (
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"math/big"
	"strconv"

	"github.com/blocktree/go-owcrypt"
)

// --- specification -------------------------------------------------------

// HMAC-SHA512(chain code, [0x00 in front of 32-byte keys] key || index big-endian)
func vspec_getI(data, key []byte, index uint32) []byte {
	m := []byte{}
	if len(data) == 32 {
		m = append(m, 0)
	}
	m = append(m, data...)
	var t [4]byte
	binary.BigEndian.PutUint32(t[:], index)
	m = append(m, t[:]...)
	h := hmac.New(sha512.New, key)
	h.Write(m)
	return h.Sum(nil)
}

func vspec_order(curve uint32) string {
	switch curve {
	case owcrypt.ECC_CURVE_SECP256K1:
		return "FFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141"
	case owcrypt.ECC_CURVE_SECP256R1:
		return "FFFFFFFF00000000FFFFFFFFFFFFFFFFBCE6FAADA7179E84F3B9CAC2FC632551"
	case owcrypt.ECC_CURVE_SM2_STANDARD:
		return "FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123"
	}
	return "1000000000000000000000000000000014DEF9DEA2F79CD65812631A5CF5D3ED"
}

func vspec_num(b []byte) *big.Int { return new(big.Int).SetBytes(b) }

func vspec_weier(c uint32) bool {
	return c == owcrypt.ECC_CURVE_SECP256K1 || c == owcrypt.ECC_CURVE_SECP256R1 || c == owcrypt.ECC_CURVE_SM2_STANDARD
}

func vspec_edw(c uint32) bool {
	return c == owcrypt.ECC_CURVE_ED25519 || c == owcrypt.ECC_CURVE_X25519 || c == owcrypt.ECC_CURVE_CURVE25519_SHA256
}

func vspec_curve(c uint32) uint32 {
	if vspec_edw(c) {
		return owcrypt.ECC_CURVE_ED25519
	}
	return c
}

// --- contracts -----------------------------------------------------------

func vlemma_getI(data, key []byte, index, curve uint32) {
	vassume(vspec_weier(curve) || vspec_edw(curve))
	h := getI(data, key, index, curve)
	veqb(h, vspec_getI(data, key, index))
	vreach()
}

func vlemma_getI_pasta(data, key []byte, index uint32) {
	h := getI(data, key, index, owcrypt.ECC_CURVE_PASTA)
	s := vspec_getI(data, key, index)
	vassert(len(h) == 64 && h[0] == 0 && h[1] == 0 && h[2] == 0)
	veqb(h[3:], s[3:])
	vreach()
}

func vlemma_inverse(d []byte) {
	o := vcopy(d)
	veqb(inverse(d), vrev(o))
	veqb(d, o)
	vreach()
}

func vlemma_order(curve uint32) {
	vassume(vspec_weier(curve) || vspec_edw(curve))
	o := getCurveOrder(curve)
	n, _ := new(big.Int).SetString(vspec_order(curve), 16)
	vassert(len(o) == 32 && vspec_num(o).Cmp(n) == 0)
	o[0]++
	veqb(getCurveOrder(curve)[1:], o[1:])
	vassert(getCurveOrder(curve)[0] == o[0]-1)
	vreach()
}

// child = (il + parent) mod n on 32 bytes; il outside [1,n) and a zero child are refused
func vlemma_prichild(il, k []byte, curve uint32) {
	vassume(vspec_weier(curve) && len(il) == 32 && len(k) == 32)
	il0, k0 := vcopy(il), vcopy(k)
	n, _ := new(big.Int).SetString(vspec_order(curve), 16)
	c, err := getPriChildViaPriParent(il, k, curve)
	l := vspec_num(il0)
	s := new(big.Int).Add(l, vspec_num(k0))
	s.Mod(s, n)
	if l.Cmp(n) >= 0 || l.Sign() == 0 || s.Sign() == 0 {
		vassert(err != nil)
		vreach()
		return
	}
	vassert(err == nil && len(c) == 32)
	vassert(vspec_num(c).Cmp(s) == 0)
	veqb(il, il0)
	veqb(k, k0)
	vreach()
}

// edwards curves: child = 8*LE(il[:28]) + parent, little-endian on 32 bytes, not a multiple of the order
func vlemma_prichild_ed(il, k []byte, curve uint32) {
	vassume(vspec_edw(curve) && len(il) == 32 && len(k) == 32 && k[31] < 0x80)
	il0, k0 := vcopy(il), vcopy(k)
	n, _ := new(big.Int).SetString(vspec_order(curve), 16)
	c, err := getPriChildViaPriParent(il, k, curve)
	l := vspec_num(vrev(il0[:28]))
	s := new(big.Int).Mul(l, vspec_num([]byte{8}))
	s.Add(s, vspec_num(vrev(k0)))
	m := new(big.Int).Mod(s, n)
	if m.Sign() == 0 {
		vassert(err != nil)
		vreach()
		return
	}
	vassert(err == nil && len(c) == 32)
	vassert(vspec_num(vrev(c)).Cmp(s) == 0)
	veqb(il, il0)
	veqb(k, k0)
	vreach()
}

// public derivation adds il*G to the parent point
func vlemma_pubchild(il, p []byte, curve uint32) {
	vassume(vspec_weier(curve) && len(il) == 32 && len(p) == 33)
	pt := owcrypt.PointDecompress(p, curve)
	vassume(len(pt) == 65)
	n, _ := new(big.Int).SetString(vspec_order(curve), 16)
	c, err := getPubChildViaPubParent(il, p, curve)
	l := vspec_num(il)
	if l.Cmp(n) >= 0 || l.Sign() == 0 {
		vassert(err != nil)
		vreach()
		return
	}
	q, inf := owcrypt.Point_mulBaseG_add(pt[1:], il, curve)
	if inf {
		vassert(err != nil)
		return
	}
	vassert(err == nil)
	veqb(c, owcrypt.PointCompress(q, curve))
	vreach()
}

func vlemma_pubchild_ed(il, p []byte, curve uint32) {
	vassume(vspec_edw(curve) && len(il) == 32 && len(p) == 32)
	il0 := vcopy(il)
	c, err := getPubChildViaPubParent(il, p, curve)
	s := new(big.Int).Mul(vspec_num(vrev(il0[:28])), vspec_num([]byte{8}))
	b := s.Bytes()
	for len(b) < 32 {
		b = append([]byte{0}, b...)
	}
	q, inf := owcrypt.Point_mulBaseG_add(p, vrev(b), owcrypt.ECC_CURVE_ED25519)
	if inf {
		vassert(err != nil)
		return
	}
	vassert(err == nil)
	veqb(c, q)
	vreach()
}

func vlemma_fp(key []byte, private bool, curve uint32) {
	vassume(vspec_weier(curve) || vspec_edw(curve))
	f := getFP(key, private, curve)
	pub := key
	if private {
		pub = owcrypt.Point_mulBaseG(key, vspec_curve(curve))
	}
	veqb(f, owcrypt.Hash(pub, 0, owcrypt.HASH_ALG_HASH160)[:4])
	vreach()
}

// private child: chain step over the key (hardened) or the public key (normal), fields of the child
//vp:opt opaque=getPriChildViaPriParent,getFP
func vlemma_genprivate(key, chain, fp []byte, depth uint8, ser uint32, private bool, curve, index uint32) {
	vassume(vspec_weier(curve) || vspec_edw(curve))
	k := NewExtendedKey(key, chain, fp, depth, ser, private, curve)
	c, err := k.GenPrivateChild(index)
	vassert(k.depth == depth && k.serializes == ser && k.isPrivate == private && k.curveType == curve)
	if depth == 255 || !private {
		vassert(c == nil && err != nil)
		vreach()
		return
	}
	d := key
	if index < 0x80000000 {
		d = owcrypt.Point_mulBaseG(key, vspec_curve(curve))
	}
	i := vspec_getI(d, chain, index)
	ck, e := getPriChildViaPriParent(i[:32], key, vspec_curve(curve))
	if e != nil {
		vassert(c == nil && err != nil)
		return
	}
	vassert(err == nil && c.depth == depth+1 && c.serializes == index && c.isPrivate && c.curveType == curve)
	veqb(c.key, ck)
	veqb(c.chainCode, i[32:])
	veqb(c.parentFP, getFP(key, true, vspec_curve(curve)))
	vreach()
}

// public child of a public key: never hardened, never beyond depth 255, one chain step over the public key
//vp:opt opaque=getPubChildViaPubParent,getFP
func vlemma_genpublic(key, chain, fp []byte, depth uint8, ser uint32, curve, index uint32) {
	vassume(vspec_weier(curve) || vspec_edw(curve))
	k := NewExtendedKey(key, chain, fp, depth, ser, false, curve)
	c, err := k.GenPublicChild(index)
	if index >= 0x80000000 || depth == 255 {
		vassert(c == nil && err != nil)
		vreach()
		return
	}
	i := vspec_getI(key, chain, index)
	ck, e := getPubChildViaPubParent(i[:32], key, vspec_curve(curve))
	if e != nil {
		vassert(c == nil && err != nil)
		return
	}
	vassert(err == nil && c.depth == depth+1 && c.serializes == index && !c.isPrivate && c.curveType == curve)
	veqb(c.key, ck)
	veqb(c.chainCode, i[32:])
	veqb(c.parentFP, getFP(key, false, vspec_curve(curve)))
	vreach()
}

// public child of a private key: the public key of its private child
//vp:opt opaque=getPriChildViaPriParent,getFP
func vlemma_genpublic_priv(key, chain, fp []byte, depth uint8, ser uint32, curve, index uint32) {
	vassume(vspec_weier(curve) || vspec_edw(curve))
	k := NewExtendedKey(key, chain, fp, depth, ser, true, curve)
	c, err := k.GenPublicChild(index)
	p, e := k.GenPrivateChild(index)
	if e != nil {
		vassert(c == nil && err != nil)
		return
	}
	vassert(err == nil && c.depth == p.depth && c.serializes == index && !c.isPrivate && c.curveType == curve)
	veqb(c.key, owcrypt.Point_mulBaseG(p.key, vspec_curve(curve)))
	veqb(c.chainCode, p.chainCode)
	veqb(c.parentFP, p.parentFP)
	vreach()
}

func vlemma_root(seed []byte, curve uint32) {
	vassume(vspec_weier(curve) || vspec_edw(curve) || curve == owcrypt.ECC_CURVE_PASTA)
	s0 := vcopy(seed)
	k, err := InitRootKeyFromSeed(seed, curve)
	if len(s0) < 16 || len(s0) > 64 {
		vassert(k == nil && err != nil)
		vreach()
		return
	}
	vassert(err == nil)
	h := sha512.New()
	h.Write(s0)
	i := h.Sum(nil)
	if vspec_edw(curve) {
		i[0] = i[0] &^ 7
		i[31] = i[31]&0x3f | 0x40
	}
	if curve == owcrypt.ECC_CURVE_PASTA {
		i[0] = i[0] & 3
	}
	veqb(k.key, i[:32])
	veqb(k.chainCode, i[32:])
	veqb(k.parentFP, []byte{0, 0, 0, 0})
	vassert(k.depth == 0 && k.serializes == 0 && k.isPrivate && k.curveType == curve)
	veqb(seed, s0)
	vreach()
}

func vlemma_pubof(key, chain, fp []byte, depth uint8, ser uint32, private bool, curve uint32) {
	vassume(vspec_weier(curve) || vspec_edw(curve))
	k := NewExtendedKey(key, chain, fp, depth, ser, private, curve)
	pub := key
	if private {
		pub = owcrypt.Point_mulBaseG(key, vspec_curve(curve))
	}
	veqb(k.GetPublicKeyBytes(), pub)
	p := k.GetPublicKey()
	vassert(!p.isPrivate && p.depth == depth && p.serializes == ser && p.curveType == curve)
	veqb(p.key, pub)
	veqb(p.chainCode, chain)
	veqb(p.parentFP, fp)
	b, err := k.GetPrivateKeyBytes()
	if private {
		vassert(err == nil)
		veqb(b, key)
		vreach()
	} else {
		vassert(err != nil && b == nil)
		vreach()
	}
}

func vspec_elem(e string, hard bool) (uint32, bool) {
	n, err := strconv.Atoi(e)
	if err != nil || n < 0 {
		return 0, false
	}
	if hard {
		return uint32(n) + 0x80000000, n < 0x80000000
	}
	return uint32(n), n < 0x100000000
}

func vspec_quote(hard bool) string {
	if hard {
		return "'"
	}
	return ""
}

// a path with two components derives exactly those two children in order (bounded: two components)
//vp:opt bounded=two-components opaque=InitRootKeyFromSeed,GenPrivateChild
func vlemma_path(seed []byte, e1, e2 string, h1, h2 bool, curve uint32) {
	vatom(e1, "/ '")
	vatom(e2, "/ '")
	k, err := DerivedPrivateKeyWithPath(seed, "m/"+e1+vspec_quote(h1)+"/"+e2+vspec_quote(h2), curve)
	r, er := InitRootKeyFromSeed(seed, curve)
	if er != nil {
		vassert(k == nil && err != nil)
		return
	}
	i1, ok1 := vspec_elem(e1, h1)
	if !ok1 {
		vassert(k == nil && err != nil)
		vreach()
		return
	}
	c, e := r.GenPrivateChild(i1)
	if e != nil {
		vassert(k == nil && err != nil)
		return
	}
	i2, ok2 := vspec_elem(e2, h2)
	if !ok2 {
		vassert(k == nil && err != nil)
		return
	}
	c, e = c.GenPrivateChild(i2)
	if e != nil {
		vassert(k == nil && err != nil)
		return
	}
	vassert(err == nil && c.depth == k.depth && c.serializes == k.serializes && c.isPrivate == k.isPrivate && c.curveType == k.curveType)
	veqb(k.key, c.key)
	veqb(k.chainCode, c.chainCode)
	veqb(k.parentFP, c.parentFP)
	vreach()
}

//vp:opt bounded=two-components opaque=GenPublicChild
func vlemma_pubpath(key, chain, fp []byte, depth uint8, ser uint32, private bool, curve uint32, e1, e2 string, h1, h2 bool) {
	vatom(e1, "/ '")
	vatom(e2, "/ '")
	r := NewExtendedKey(key, chain, fp, depth, ser, private, curve)
	k, err := r.DerivedPublicKeyFromPath("/" + e1 + vspec_quote(h1) + "/" + e2 + vspec_quote(h2))
	i1, ok1 := vspec_elem(e1, h1)
	if !ok1 {
		vassert(k == nil && err != nil)
		vreach()
		return
	}
	c, e := r.GenPublicChild(i1)
	if e != nil {
		vassert(k == nil && err != nil)
		return
	}
	i2, ok2 := vspec_elem(e2, h2)
	if !ok2 {
		vassert(k == nil && err != nil)
		return
	}
	c, e = c.GenPublicChild(i2)
	if e != nil {
		vassert(k == nil && err != nil)
		return
	}
	vassert(err == nil && c.depth == k.depth && c.serializes == k.serializes && c.isPrivate == k.isPrivate && c.curveType == k.curveType)
	veqb(k.key, c.key)
	veqb(k.chainCode, c.chainCode)
	vreach()
}

func vmk_elem(g *vrand) string {
	switch g.n(6) {
	case 0:
		return []string{"", "x", "-1", "4294967295", "4294967296", "2147483647", "2147483648", "9223372036854775808", "+3"}[g.n(9)]
	case 1:
		return strconv.FormatUint(g.u64(), 10)
	}
	return strconv.Itoa(g.n(1000))
}

func vgen_path(g *vrand) ([]byte, string, string, bool, bool, uint32) {
	return g.bytes(14 + g.n(52)), vmk_elem(g), vmk_elem(g), g.p(50), g.p(50), vmk_curve(g)
}

func vmk_curve(g *vrand) uint32 {
	return []uint32{owcrypt.ECC_CURVE_SECP256K1, owcrypt.ECC_CURVE_SECP256R1, owcrypt.ECC_CURVE_SM2_STANDARD, owcrypt.ECC_CURVE_ED25519, owcrypt.ECC_CURVE_X25519, owcrypt.ECC_CURVE_CURVE25519_SHA256}[g.n(6)]
}

func vmk_key(g *vrand) *ExtendedKey {
	k, _ := InitRootKeyFromSeed(g.bytes(16+g.n(40)), vmk_curve(g))
	k.depth = []uint8{0, 1, 2, 253, 254, 255}[g.n(6)]
	k.serializes = uint32(g.u64())
	k.parentFP = g.bytes(4)
	if g.p(50) {
		k = k.GetPublicKey()
	}
	return k
}

func vgen_genprivate(g *vrand) ([]byte, []byte, []byte, uint8, uint32, bool, uint32, uint32) {
	k := vmk_key(g)
	return k.key, k.chainCode, k.parentFP, k.depth, k.serializes, k.isPrivate, k.curveType, uint32(g.u64())
}

func vgen_genpublic(g *vrand) ([]byte, []byte, []byte, uint8, uint32, uint32, uint32) {
	k := vmk_key(g).GetPublicKey()
	return k.key, k.chainCode, k.parentFP, k.depth, k.serializes, k.curveType, uint32(g.u64()) >> uint(g.n(2))
}

func vgen_genpublic_priv(g *vrand) ([]byte, []byte, []byte, uint8, uint32, uint32, uint32) {
	k := vmk_key(g)
	for !k.isPrivate {
		k = vmk_key(g)
	}
	return k.key, k.chainCode, k.parentFP, k.depth, k.serializes, k.curveType, uint32(g.u64())
}

func vgen_pubof(g *vrand) ([]byte, []byte, []byte, uint8, uint32, bool, uint32) {
	k := vmk_key(g)
	return k.key, k.chainCode, k.parentFP, k.depth, k.serializes, k.isPrivate, k.curveType
}

func vgen_pubpath(g *vrand) ([]byte, []byte, []byte, uint8, uint32, bool, uint32, string, string, bool, bool) {
	k := vmk_key(g)
	return k.key, k.chainCode, k.parentFP, k.depth, k.serializes, k.isPrivate, k.curveType, vmk_elem(g), vmk_elem(g), g.p(20), g.p(20)
}

func vgen_pubchild(g *vrand) ([]byte, []byte, uint32) {
	c := []uint32{owcrypt.ECC_CURVE_SECP256K1, owcrypt.ECC_CURVE_SECP256R1, owcrypt.ECC_CURVE_SM2_STANDARD}[g.n(3)]
	k, _ := InitRootKeyFromSeed(g.bytes(32), c)
	return g.bytes(32), k.GetPublicKeyBytes(), c
}

// the chain step of the BLS curves keeps the key below the group order by lowering its first byte
func vlemma_getI_bls(data, key []byte, index uint32, aug bool) {
	c := uint32(owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_NUL)
	if aug {
		c = owcrypt.ECC_CURVE_BLS12381_G2_XMD_SHA_256_SSWU_RO_AUG
	}
	h := getI(data, key, index, c)
	s := vspec_getI(data, key, index)
	vassert(len(h) == 64 && h[0] < 0x73)
	veqb(h[1:], s[1:])
	if s[0] < 0x73 {
		vassert(h[0] == s[0])
	}
	vreach()
}
