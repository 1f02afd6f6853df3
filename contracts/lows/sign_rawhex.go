//vp:packages rippleTransaction
//vp:prop P05
package PKG

import "encoding/hex"

func vlemma_signlow(h string, pri []byte) {
	vassume(len(pri) == 32 && len(h) == 64)
	s, err := SignRawTransaction(h, pri)
	if err == nil {
		b, e := hex.DecodeString(s)
		vassert(e == nil)
		vspec_low(b)
	}
}

func vgen_signlow(g *vrand) (string, []byte) { return vhexs(g.bytes(32)), g.bytes(32) }
