package PKG

// Ghost helpers for contracts.  The deductive engine interprets them; the bodies
// below are what the replay harness executes.

type vskip struct{}
type vfail struct{ msg string }

func vassume(c bool) {
	if !c {
		panic(vskip{})
	}
}

func vassert(c bool) {
	if !c {
		panic(vfail{"contract assertion"})
	}
}

func vreach() {}

func vhexs(b []byte) string {
	const d = "0123456789abcdef"
	r := make([]byte, 0, 2*len(b))
	for _, x := range b {
		r = append(r, d[x>>4], d[x&15])
	}
	return string(r)
}

func veqb(a, b []byte) {
	if string(a) != string(b) {
		panic(vfail{"byte strings differ: " + vhexs(a) + " / " + vhexs(b)})
	}
}

func veqs(a, b string) {
	if a != b {
		panic(vfail{"strings differ: " + a + " / " + b})
	}
}

func vsame(a, b []byte) bool { return string(a) == string(b) }

func vrev(b []byte) []byte {
	r := make([]byte, len(b))
	for i := range b {
		r[i] = b[len(b)-1-i]
	}
	return r
}

func vcopy(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// assumes that s contains none of the bytes of chars
func vatom(s, chars string) {
	for i := 0; i < len(s); i++ {
		for j := 0; j < len(chars); j++ {
			vassume(s[i] != chars[j])
		}
	}
}

// whether v is the same number in every execution of this point; used in contracts only, to choose between two true descriptions
func vlit(v int64) bool { return true }
