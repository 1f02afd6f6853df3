package PKG

// Replay and counterexample search for the contract lemmas: runs the compiled code.

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"math/big"
	"os"
	"reflect"
	"runtime"
	"strings"
	"sync/atomic"
	"time"
	"unsafe"
)

type vrand struct {
	s    uint64
	dict [][]byte
	nums []uint64
	pool [][]byte
}

func (g *vrand) next() uint64 {
	g.s += 0x9e3779b97f4a7c15
	z := g.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (g *vrand) n(k int) int {
	if k <= 0 {
		return 0
	}
	return int(g.next() % uint64(k))
}
func (g *vrand) p(pct int) bool { return g.n(100) < pct }
func (g *vrand) bytes(k int) []byte {
	b := make([]byte, k)
	switch g.n(8) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] = byte(g.n(3))
		}
	case 3:
		for i := range b {
			b[i] = byte(g.next())
		}
		for i := 0; i < len(b) && i < g.n(len(b)+1); i++ {
			b[i] = 0
		}
	case 4:
		for i := range b {
			b[i] = byte(g.next())
		}
		if len(b) > 0 {
			e := []byte{0, 1, 2, 0x7f, 0x80, 0x81, 0xfc, 0xfd, 0xfe, 0xff}
			b[g.n(len(b))] = e[g.n(len(e))]
			b[0] = e[g.n(len(e))]
		}
	default:
		for i := range b {
			b[i] = byte(g.next())
		}
	}
	return b
}
func (g *vrand) size() int {
	switch g.n(7) {
	case 0:
		return g.n(6)
	case 1:
		e := []int{0, 1, 2, 4, 8, 16, 20, 21, 22, 23, 24, 25, 31, 32, 33, 34, 35, 36, 37, 47, 63, 64, 65, 66, 70, 71, 72, 73, 78, 82, 106, 107, 108, 127, 128, 252, 253, 254, 255, 256, 300}
		return e[g.n(len(e))]
	case 2:
		return g.n(40)
	case 3:
		return 20 + g.n(60)
	case 4:
		return g.n(300)
	case 5:
		e := []int{32, 33, 64, 65, 20, 25, 4, 8}
		return e[g.n(len(e))]
	}
	return g.n(12)
}
func (g *vrand) blob() []byte {
	if len(g.pool) > 0 && g.p(12) {
		b := append([]byte{}, g.pool[g.n(len(g.pool))]...)
		if g.p(50) {
			return g.mutb(b)
		}
		return b
	}
	if len(g.dict) > 0 && g.p(6) {
		return append([]byte{}, g.dict[g.n(len(g.dict))]...)
	}
	b := g.bytes(g.size())
	g.pool = append(g.pool, b)
	return b
}
func (g *vrand) mutb(b []byte) []byte {
	b = append([]byte{}, b...)
	for k := 0; k <= g.n(3); k++ {
		switch g.n(6) {
		case 0:
			if len(b) > 0 {
				b[g.n(len(b))] ^= 1 << uint(g.n(8))
			}
		case 1:
			if len(b) > 0 {
				b[g.n(len(b))] = g.bytes(1)[0]
			}
		case 2:
			if len(b) > 0 {
				b = b[:g.n(len(b))]
			}
		case 3:
			i := g.n(len(b) + 1)
			b = append(append(append([]byte{}, b[:i]...), g.bytes(1+g.n(3))...), b[i:]...)
		case 4:
			if len(b) > 0 {
				i := g.n(len(b))
				b = append(append([]byte{}, b[:i]...), b[i+1:]...)
			}
		case 5:
			if len(b) > 0 {
				e := []byte{0, 1, 2, 0x14, 0x20, 0x21, 0x47, 0x48, 0x6c, 0x7f, 0x80, 0xfc, 0xfd, 0xfe, 0xff}
				b[g.n(len(b))] = e[g.n(len(e))]
			}
		}
	}
	return b
}
func (g *vrand) str() string {
	switch g.n(6) {
	case 0, 1, 2:
		return hex.EncodeToString(g.blob())
	case 3:
		if len(g.dict) > 0 {
			return string(g.dict[g.n(len(g.dict))])
		}
		return ""
	case 4:
		const a = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0OIl:/-. "
		b := make([]byte, g.size())
		for i := range b {
			b[i] = a[g.n(len(a))]
		}
		return string(b)
	}
	return string(g.blob())
}
func (g *vrand) u64() uint64 {
	switch g.n(6) {
	case 0:
		return uint64(g.n(4))
	case 1:
		e := []uint64{0, 1, 2, 9, 10, 62, 63, 64, 127, 128, 252, 253, 254, 255, 256, 16383, 16384, 65535, 65536, 1<<30 - 1, 1 << 30, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<56 - 1, 1 << 56, 1<<62 - 1, 1 << 62, 1<<63 - 1, 1 << 63, 1<<64 - 1}
		return e[g.n(len(e))]
	case 2:
		if len(g.nums) > 0 {
			return g.nums[g.n(len(g.nums))] + uint64(g.n(3)) - 1
		}
		return g.next()
	case 3:
		return g.next() >> uint(g.n(64))
	case 4:
		return uint64(g.n(300))
	}
	return g.next()
}

var vbigT = reflect.TypeOf(big.Int{})

func vsettable(f reflect.Value) reflect.Value {
	if f.CanSet() {
		return f
	}
	return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
}

func (g *vrand) fill(v reflect.Value, d int) {
	v = vsettable(v)
	if v.Type() == vbigT {
		v.Set(reflect.ValueOf(*new(big.Int).SetBytes(g.bytes(g.n(33)))))
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		v.SetBool(g.p(50))
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		x := int64(g.u64())
		if g.p(30) {
			x = int64(g.n(8))
		}
		v.SetInt(x)
		if v.Kind() != reflect.Int64 && v.Kind() != reflect.Int && v.OverflowInt(x) {
			v.SetInt(x & 0x7f)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		x := g.u64()
		if g.p(30) {
			x = uint64(g.n(8))
		}
		v.SetUint(x)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(float64(g.n(1000)))
	case reflect.String:
		v.SetString(g.str())
	case reflect.Slice:
		if g.p(4) {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := g.blob()
			s := reflect.MakeSlice(v.Type(), len(b), len(b))
			reflect.Copy(s, reflect.ValueOf(b))
			v.Set(s)
			return
		}
		n := g.n(4)
		if g.p(10) {
			n = g.n(20)
		}
		if d < 2 && g.p(1) {
			n = 250 + g.n(10)
		}
		s := reflect.MakeSlice(v.Type(), n, n)
		for i := 0; i < n; i++ {
			g.fill(s.Index(i), d+1)
		}
		v.Set(s)
	case reflect.Array:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := g.bytes(v.Len())
			reflect.Copy(v, reflect.ValueOf(b))
			return
		}
		for i := 0; i < v.Len(); i++ {
			g.fill(v.Index(i), d+1)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			g.fill(v.Field(i), d+1)
		}
	case reflect.Ptr:
		if g.p(8) || d > 6 {
			v.Set(reflect.Zero(v.Type()))
			return
		}
		x := reflect.New(v.Type().Elem())
		g.fill(x.Elem(), d+1)
		v.Set(x)
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
	}
}

// mutate one random part of a value
func (g *vrand) mut(v reflect.Value, d int) {
	v = vsettable(v)
	switch v.Kind() {
	case reflect.String:
		if v.Len() == 0 || g.p(15) {
			g.fill(v, d)
			return
		}
		if b, e := hex.DecodeString(v.String()); e == nil && g.p(70) {
			v.SetString(hex.EncodeToString(g.mutb(b)))
		} else {
			v.SetString(string(g.mutb([]byte(v.String()))))
		}
	case reflect.Slice:
		if v.Len() == 0 || g.p(10) {
			g.fill(v, d)
			return
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			b := g.mutb(v.Bytes())
			v.SetBytes(b)
			return
		}
		if g.p(15) {
			// duplicate or drop an element
			i := g.n(v.Len())
			if g.p(50) {
				v.Set(reflect.AppendSlice(reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, 0), v.Slice(0, i)), v.Slice(i+1, v.Len())))
			} else {
				v.Set(reflect.Append(reflect.AppendSlice(reflect.MakeSlice(v.Type(), 0, 0), v), v.Index(i)))
			}
			return
		}
		g.mut(v.Index(g.n(v.Len())), d+1)
	case reflect.Array:
		if v.Len() > 0 {
			g.mut(v.Index(g.n(v.Len())), d+1)
		}
	case reflect.Struct:
		if v.Type() == vbigT || v.NumField() == 0 {
			g.fill(v, d)
			return
		}
		g.mut(v.Field(g.n(v.NumField())), d+1)
	case reflect.Ptr:
		if v.IsNil() || g.p(5) {
			g.fill(v, d)
			return
		}
		g.mut(v.Elem(), d+1)
	default:
		g.fill(v, d)
	}
}

func vdump(v reflect.Value, d int) interface{} {
	if v.CanAddr() {
		v = vsettable(v)
	}
	if v.Type() == vbigT {
		b := v.Interface().(big.Int)
		return map[string]interface{}{"big": b.String()}
	}
	switch v.Kind() {
	case reflect.Bool:
		return v.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return json.Number(fmt.Sprint(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return json.Number(fmt.Sprint(v.Uint()))
	case reflect.Float32, reflect.Float64:
		return v.Float()
	case reflect.String:
		return map[string]interface{}{"hex": hex.EncodeToString([]byte(v.String()))}
	case reflect.Slice:
		if v.IsNil() {
			return nil
		}
		if v.Type().Elem().Kind() == reflect.Uint8 {
			return map[string]interface{}{"hex": hex.EncodeToString(v.Bytes())}
		}
		fallthrough
	case reflect.Array:
		r := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			r = append(r, vdump(v.Index(i), d+1))
		}
		return r
	case reflect.Struct:
		m := map[string]interface{}{}
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			if !v.CanAddr() {
				x := reflect.New(v.Type()).Elem()
				x.Set(v)
				f = x.Field(i)
			}
			m[v.Type().Field(i).Name] = vdump(f, d+1)
		}
		return m
	case reflect.Ptr:
		if v.IsNil() || d > 8 {
			return nil
		}
		return vdump(v.Elem(), d+1)
	}
	return nil
}

func vload(v reflect.Value, x interface{}) {
	v = vsettable(v)
	if x == nil {
		return
	}
	if v.Type() == vbigT {
		if m, ok := x.(map[string]interface{}); ok {
			if s, ok := m["big"].(string); ok {
				b, _ := new(big.Int).SetString(s, 10)
				v.Set(reflect.ValueOf(*b))
			}
		}
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		b, _ := x.(bool)
		v.SetBool(b)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		b, ok := new(big.Int).SetString(fmt.Sprint(x), 10)
		if ok {
			v.SetInt(int64(b.Uint64()))
			if b.Sign() < 0 {
				v.SetInt(b.Int64())
			}
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		b, ok := new(big.Int).SetString(fmt.Sprint(x), 10)
		if ok {
			v.SetUint(b.Uint64())
		}
	case reflect.String:
		if m, ok := x.(map[string]interface{}); ok {
			b, _ := hex.DecodeString(fmt.Sprint(m["hex"]))
			v.SetString(string(b))
		}
	case reflect.Slice:
		if m, ok := x.(map[string]interface{}); ok {
			b, _ := hex.DecodeString(fmt.Sprint(m["hex"]))
			s := reflect.MakeSlice(v.Type(), len(b), len(b))
			if v.Type().Elem().Kind() == reflect.Uint8 {
				reflect.Copy(s, reflect.ValueOf(b))
			}
			v.Set(s)
			return
		}
		if l, ok := x.([]interface{}); ok {
			s := reflect.MakeSlice(v.Type(), len(l), len(l))
			for i := range l {
				vload(s.Index(i), l[i])
			}
			v.Set(s)
		}
	case reflect.Array:
		if m, ok := x.(map[string]interface{}); ok {
			b, _ := hex.DecodeString(fmt.Sprint(m["hex"]))
			reflect.Copy(v, reflect.ValueOf(b))
		}
		if l, ok := x.([]interface{}); ok {
			for i := 0; i < len(l) && i < v.Len(); i++ {
				vload(v.Index(i), l[i])
			}
		}
	case reflect.Struct:
		if m, ok := x.(map[string]interface{}); ok {
			for i := 0; i < v.NumField(); i++ {
				if y, ok := m[v.Type().Field(i).Name]; ok {
					vload(v.Field(i), y)
				}
			}
		}
	case reflect.Ptr:
		p := reflect.New(v.Type().Elem())
		vload(p.Elem(), x)
		v.Set(p)
	}
}

func vclone(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	vload(n, vdump(v, 0))
	return n
}

// outcome: 0 ok, 1 skipped (precondition), 2 failed
func vrunone(f reflect.Value, args []reflect.Value) (out int, msg string) {
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case vskip:
				out = 1
			case vfail:
				out = 2
				msg = "assertion failed: " + x.msg
				pc := make([]uintptr, 16)
				k := runtime.Callers(3, pc)
				fr := runtime.CallersFrames(pc[:k])
				for {
					q, more := fr.Next()
					if strings.Contains(q.Function, "vlemma") {
						msg += fmt.Sprintf(" at %s:%d", q.File, q.Line)
						break
					}
					if !more {
						break
					}
				}
			default:
				out = 2
				msg = fmt.Sprintf("panic: %v", e)
				pc := make([]uintptr, 24)
				k := runtime.Callers(3, pc)
				fr := runtime.CallersFrames(pc[:k])
				for {
					q, more := fr.Next()
					if !strings.HasPrefix(q.Function, "runtime.") {
						msg += fmt.Sprintf(" at %s %s:%d", q.Function, q.File, q.Line)
						if strings.HasPrefix(q.Function, "crypto/elliptic.") {
							out, msg = 1, "" // the curve library refuses points that are not on the curve
						}
						break
					}
					if !more {
						break
					}
				}
			}
		}
	}()
	f.Call(args)
	return 0, ""
}

type vresult struct {
	Lemma   string        `json:"lemma"`
	Failed  bool          `json:"failed"`
	Msg     string        `json:"msg"`
	Source  string        `json:"source"`
	Inputs  []interface{} `json:"inputs"`
	Tried   int           `json:"tried"`
	Skipped int           `json:"skipped"`
}

// a generator that gives up (or runs into code that does not work) yields no input
func vgenerate(gen interface{}, g *vrand) (r []reflect.Value) {
	defer func() {
		if e := recover(); e != nil {
			r = nil
		}
	}()
	return reflect.ValueOf(gen).Call([]reflect.Value{reflect.ValueOf(g)})
}

func VMain(lemmas, gens map[string]interface{}, reset func(), argv []string) {
	// the code under contract may print: results go to the real stdout, its own output nowhere
	vout := os.Stdout
	if n, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = n
	}
	name := argv[1]
	lf, ok := lemmas[name]
	if !ok {
		fmt.Fprintln(vout, `{"error":"no such lemma"}`)
		os.Exit(3)
	}
	f := reflect.ValueOf(lf)
	ft := f.Type()
	res := vresult{Lemma: name}
	var start int64
	var cur atomic.Value
	finish := func(code int) {
		j, _ := json.Marshal(res)
		fmt.Fprintln(vout, string(j))
		os.Exit(code)
	}
	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			s := atomic.LoadInt64(&start)
			if s != 0 && time.Now().UnixNano()-s > 25e9 {
				in, _ := cur.Load().([]interface{})
				j, _ := json.Marshal(vresult{Lemma: name, Failed: true, Msg: "does not terminate within 25 s", Source: "search", Inputs: in})
				fmt.Fprintln(vout, string(j))
				os.Exit(1)
			}
		}
	}()
	one := func(args []reflect.Value, src string) bool {
		in := []interface{}{}
		for _, a := range args {
			in = append(in, vdump(a, 0))
		}
		cur.Store(in)
		atomic.StoreInt64(&start, time.Now().UnixNano())
		o, msg := vrunone(f, args)
		atomic.StoreInt64(&start, 0)
		res.Tried++
		if o == 1 {
			res.Skipped++
		}
		if o == 2 {
			if reset != nil {
				reset()
			}
			res.Failed = true
			res.Msg = msg
			res.Inputs = in
			res.Source = src
			finish(1)
		}
		return o == 0
	}
	load := func(l []interface{}) []reflect.Value {
		args := []reflect.Value{}
		for i := 0; i < ft.NumIn(); i++ {
			v := reflect.New(ft.In(i)).Elem()
			if i < len(l) {
				vload(v, l[i])
			}
			args = append(args, v)
		}
		return args
	}
	readf := func(p string) (out [][]interface{}) {
		b, err := ioutil.ReadFile(p)
		if err != nil {
			return
		}
		d := json.NewDecoder(strings.NewReader(string(b)))
		d.UseNumber()
		d.Decode(&out)
		return
	}
	switch argv[0] {
	case "replay":
		for _, l := range readf(argv[2]) {
			one(load(l), "solver")
		}
		finish(0)
	case "search":
		var seed uint64
		var secs float64
		fmt.Sscan(argv[2], &seed)
		fmt.Sscan(argv[3], &secs)
		g := &vrand{s: seed*7919 + 12345}
		var corpus [][]interface{}
		if len(argv) > 4 {
			for _, l := range readf(argv[4]) {
				one(load(l), "solver")
				corpus = append(corpus, l)
			}
		}
		if len(argv) > 5 {
			b, _ := ioutil.ReadFile(argv[5])
			var dj struct {
				Strs []string
				Nums []uint64
			}
			json.Unmarshal(b, &dj)
			for _, s := range dj.Strs {
				h, _ := hex.DecodeString(s)
				g.dict = append(g.dict, h)
			}
			g.nums = dj.Nums
		}
		gen, hasgen := gens[name]
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		if ft.NumIn() == 0 {
			one(nil, "search")
			finish(0)
		}
		for time.Now().Before(end) {
			var args []reflect.Value
			g.pool = nil
			if len(corpus) > 0 && g.p(40) {
				args = load(corpus[g.n(len(corpus))])
				for k := 0; k <= g.n(3); k++ {
					g.mut(args[g.n(len(args))], 0)
				}
			} else if hasgen && g.p(85) {
				for _, a := range vgenerate(gen, g) {
					v := reflect.New(a.Type()).Elem()
					v.Set(a)
					args = append(args, v)
				}
				if args == nil {
					continue
				}
			} else {
				for i := 0; i < ft.NumIn(); i++ {
					v := reflect.New(ft.In(i)).Elem()
					g.fill(v, 0)
					args = append(args, v)
				}
			}
			var keep []interface{}
			if len(corpus) < 200 || g.p(3) {
				for _, a := range args {
					keep = append(keep, vdump(a, 0))
				}
			}
			if one(args, "search") && keep != nil {
				if len(corpus) < 200 {
					corpus = append(corpus, keep)
				} else {
					corpus[g.n(len(corpus))] = keep
				}
			}
		}
		finish(0)
	}
}

// text behind the prefix of a bech32-style address: mostly right, sometimes with foreign characters
// (checksummed as if they were legal), mixed case, padding bits or single errors
func vmk_bech(g *vrand, pre []int8, n int, code uint64, wide bool) []byte {
	const alpha = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"
	gen := [5]uint64{0x3b6a57b2, 0x26508e6d, 0x1ea119fa, 0x3d4233dd, 0x2a1462b3}
	sh, ck := uint(25), 6
	if wide {
		gen = [5]uint64{0x98f2bc8e61, 0x79b76d99e2, 0xf33e5fb3c4, 0xae2eabe2a8, 0x1e4f43e470}
		sh, ck = 35, 8
	}
	v := make([]int8, n)
	for i := 0; i < n-ck; i++ {
		v[i] = int8(g.n(32))
	}
	if g.p(80) {
		v[0] = 0
	}
	if g.p(70) && (n-ck)*5%8 != 0 {
		v[n-ck-1] &= int8(31) << uint((n-ck)*5%8)
	}
	bad := -1
	if g.p(15) {
		bad = g.n(n - ck)
		v[bad] = -1
	}
	c := uint64(1)
	for _, x := range append(append([]int8{}, pre...), v...) {
		top := c >> sh
		c = (c&(1<<sh-1))<<5 ^ uint64(x)
		for j := uint(0); j < 5; j++ {
			if top>>j&1 == 1 {
				c ^= gen[j]
			}
		}
	}
	c ^= code
	r := make([]byte, n)
	for i := range r {
		if i >= n-ck {
			v[i] = int8(c >> uint(5*(n-1-i)) & 31)
		}
		r[i] = alpha[v[i]&31]
	}
	if bad >= 0 {
		r[bad] = "bioBIO"[g.n(6)]
	}
	if g.p(20) {
		pct := []int{2, 30, 100}[g.n(3)]
		for i := range r {
			if r[i] >= 'a' && r[i] <= 'z' && g.p(pct) {
				r[i] -= 32
			}
		}
	}
	if g.p(15) {
		r[g.n(n)] = alpha[g.n(32)]
	}
	if g.p(5) {
		r[g.n(n)] = byte(g.n(256))
	}
	return r
}
