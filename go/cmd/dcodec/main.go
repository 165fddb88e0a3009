// dcodec exercises the key and number codecs (properties C01..C03).
package main

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"os"
	"sort"

	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/kv/compact"
	mc "github.com/zhiqiangxu/mondis/kv/memcomparable"
	"github.com/zhiqiangxu/mondis/kv/numeric"
	"mondisverif/trace"
)

var (
	prop = flag.String("prop", "", "")
	seed = flag.Int64("seed", 1, "")
	size = flag.Int("size", 1, "scale factor")
	out  = flag.String("out", "", "")
	in   = flag.String("in", "", "values and inputs generated from the specification")
)

// codec describes one encoding; values are Go values compared by less.
type codec struct {
	name    string
	ordered bool
	enc     func(b []byte, v interface{}) []byte
	dec     func(b []byte) (v interface{}, rest []byte, err error)
	less    func(a, b interface{}) bool
	form    func(v interface{}) interface{} // trace form
	gen     func(r *rand.Rand) interface{}
	edges   []interface{}
}

type tup struct {
	a []byte
	n int64
	b []byte
}
type ids struct{ c, d int64 }
type name struct {
	c int64
	s string
}

var r *rand.Rand

func lessBytes(a, b interface{}) bool { return bytes.Compare(a.([]byte), b.([]byte)) < 0 }
func lessI(a, b interface{}) bool     { return a.(int64) < b.(int64) }
func lessU(a, b interface{}) bool     { return a.(uint64) < b.(uint64) }
func lessF(a, b interface{}) bool     { return a.(float64) < b.(float64) }
func formB(v interface{}) interface{} { return trace.K(v.([]byte)) }
func formI(v interface{}) interface{} { return trace.I64(v.(int64)) }
func formU(v interface{}) interface{} { return trace.U64(v.(uint64)) }
func formF(v interface{}) interface{} {
	u := math.Float64bits(v.(float64))
	return trace.Ev{"sg": int(u >> 63), "m": trace.U64(u &^ (1 << 63))}
}

func genBytes(r *rand.Rand) interface{} {
	n := []int{0, 1, 2, 3, 7, 8, 9, 15, 16, 17, r.Intn(40)}[r.Intn(11)]
	b := make([]byte, n)
	alpha := []byte{0, 0, 255, 1, 254, 247, 97}
	for i := range b {
		if r.Intn(8) == 0 {
			b[i] = byte(r.Intn(256))
		} else {
			b[i] = alpha[r.Intn(1+r.Intn(len(alpha)))]
		}
	}
	return b
}

func genI(r *rand.Rand) interface{} {
	switch r.Intn(3) {
	case 0:
		return int64(1)<<uint(r.Intn(64)) - int64(r.Intn(3))
	case 1:
		return -(int64(1) << uint(r.Intn(64))) + int64(r.Intn(3))
	}
	return int64(r.Uint64()) >> uint(r.Intn(64))
}
func genU(r *rand.Rand) interface{} {
	if r.Intn(2) == 0 {
		return uint64(1)<<uint(r.Intn(64)) - uint64(r.Intn(3)) + 1
	}
	return r.Uint64() >> uint(r.Intn(64))
}
func genU8(r *rand.Rand) interface{} { return uint64(r.Intn(256)) }
func genF(r *rand.Rand) interface{} {
	var f float64
	switch r.Intn(3) {
	case 0:
		f = math.Float64frombits(r.Uint64())
	case 1:
		f = float64(r.Intn(2000)-1000) / 8
	default:
		f = math.Float64frombits(uint64(r.Intn(2))<<63 | uint64(r.Intn(4))<<52 | uint64(r.Intn(3)))
	}
	if f != f {
		f = 0
	}
	return f
}

var edgesI = []interface{}{int64(0), int64(1), int64(-1), int64(math.MaxInt64), int64(math.MinInt64), int64(math.MaxInt64 - 1), int64(math.MinInt64 + 1), int64(255), int64(256), int64(-255), int64(-256), int64(-257), int64(1 << 32), int64(-1 << 32)}
var edgesU = []interface{}{uint64(0), uint64(1), uint64(255), uint64(256), uint64(math.MaxInt64), uint64(1 << 63), uint64(math.MaxUint64), uint64(math.MaxUint64 - 1)}
var edgesU8 = []interface{}{uint64(0), uint64(1), uint64(127), uint64(128), uint64(254), uint64(255)}
var edgesF = []interface{}{0.0, math.Copysign(0, -1), 1.0, -1.0, 0.5, -0.5, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 1e-308, -1e-308, 2.2250738585072014e-308, -2.2250738585072014e-308, 2.0, -2.0, 3.0, 1.0000000000000002, 0.9999999999999999}

var codecs []codec

// decoding into buffers of every kind must not matter
func buf() []byte {
	switch r.Intn(4) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte{9, 9, 9}
	}
	return bytes.Repeat([]byte{7}, 64)[:r.Intn(64)]
}

func setup(bvals [][]byte) {
	var be []interface{}
	for _, b := range bvals {
		be = append(be, b)
	}
	vb := func(f func([]byte, []byte) ([]byte, []byte, error)) func([]byte) (interface{}, []byte, error) {
		return func(b []byte) (interface{}, []byte, error) { rest, v, err := f(b, buf()); return v, rest, err }
	}
	codecs = []codec{
		{"bytes", true, func(b []byte, v interface{}) []byte { return mc.EncodeBytes(b, v.([]byte)) }, vb(mc.DecodeBytes), lessBytes, formB, genBytes, be},
		{"bytesdesc", true, func(b []byte, v interface{}) []byte { return mc.EncodeBytesDesc(b, v.([]byte)) }, vb(mc.DecodeBytesDesc), lessBytes, formB, genBytes, be},
		{"int64", true, func(b []byte, v interface{}) []byte { return mc.EncodeInt64(b, v.(int64)) }, func(b []byte) (interface{}, []byte, error) { l, v, err := mc.DecodeInt64(b); return v, l, err }, lessI, formI, genI, edgesI},
		{"int64desc", true, func(b []byte, v interface{}) []byte { return mc.EncodeInt64Desc(b, v.(int64)) }, func(b []byte) (interface{}, []byte, error) { l, v, err := mc.DecodeInt64Desc(b); return v, l, err }, lessI, formI, genI, edgesI},
		{"uint64", true, func(b []byte, v interface{}) []byte { return mc.EncodeUint64(b, v.(uint64)) }, func(b []byte) (interface{}, []byte, error) { l, v, err := mc.DecodeUint64(b); return v, l, err }, lessU, formU, genU, edgesU},
		{"uint64desc", true, func(b []byte, v interface{}) []byte { return mc.EncodeUint64Desc(b, v.(uint64)) }, func(b []byte) (interface{}, []byte, error) { l, v, err := mc.DecodeUint64Desc(b); return v, l, err }, lessU, formU, genU, edgesU},
		{"uint8", true, func(b []byte, v interface{}) []byte { return mc.EncodeUint8(b, uint8(v.(uint64))) }, func(b []byte) (interface{}, []byte, error) {
			l, v, err := mc.DecodeUint8(b)
			return uint64(v), l, err
		}, lessU, formU, genU8, edgesU8},
		{"uint8desc", true, func(b []byte, v interface{}) []byte { return mc.EncodeUint8Desc(b, uint8(v.(uint64))) }, func(b []byte) (interface{}, []byte, error) {
			l, v, err := mc.DecodeUint8Desc(b)
			return uint64(v), l, err
		}, lessU, formU, genU8, edgesU8},
		{"float64", true, func(b []byte, v interface{}) []byte { return mc.EncodeFloat64(b, v.(float64)) }, func(b []byte) (interface{}, []byte, error) { l, v, err := mc.DecodeFloat64(b); return v, l, err }, lessF, formF, genF, edgesF},
		{"float64desc", true, func(b []byte, v interface{}) []byte { return mc.EncodeFloat64Desc(b, v.(float64)) }, func(b []byte) (interface{}, []byte, error) { l, v, err := mc.DecodeFloat64Desc(b); return v, l, err }, lessF, formF, genF, edgesF},
		{"cmpuint64", true, func(b []byte, v interface{}) []byte {
			return mc.EncodeUint64(b, mc.EncodeInt64ToUint64(v.(int64)))
		}, func(b []byte) (interface{}, []byte, error) {
			l, u, err := mc.DecodeUint64(b)
			return mc.DecodeUint64ToInt64(u), l, err
		}, lessI, formI, genI, edgesI},
		{"tuple", true, func(b []byte, v interface{}) []byte {
			t := v.(tup)
			return mc.EncodeBytes(mc.EncodeInt64Desc(mc.EncodeBytes(b, t.a), t.n), t.b)
		}, func(b []byte) (interface{}, []byte, error) {
			var t tup
			var err error
			if b, t.a, err = mc.DecodeBytes(b, nil); err != nil {
				return t, nil, err
			}
			if b, t.n, err = mc.DecodeInt64Desc(b); err != nil {
				return t, nil, err
			}
			b, t.b, err = mc.DecodeBytes(b, nil)
			return t, b, err
		}, func(x, y interface{}) bool {
			a, b := x.(tup), y.(tup)
			if c := bytes.Compare(a.a, b.a); c != 0 {
				return c < 0
			}
			if a.n != b.n {
				return a.n > b.n
			}
			return bytes.Compare(a.b, b.b) < 0
		}, func(v interface{}) interface{} {
			t := v.(tup)
			return []interface{}{trace.K(t.a), trace.I64(t.n), trace.K(t.b)}
		}, func(r *rand.Rand) interface{} {
			s := [][]byte{{}, {0}, {97}, {97, 0}, {97, 97}, {97, 97, 97, 97, 97, 97, 97, 97}, {97, 97, 97, 97, 97, 97, 97, 97, 0}, {255}}
			return tup{s[r.Intn(len(s))], int64(r.Intn(3) - 1), genBytes(r).([]byte)}
		}, nil},
		{"dockey", true, func(b []byte, v interface{}) []byte { return dml.EncodeCollectionDocumentKey(b, v.(ids).c, v.(ids).d) },
			func(b []byte) (interface{}, []byte, error) {
				c, d, err := dml.DecodeCollectionDocumentKey(b)
				return ids{c, d}, nil, err
			}, func(x, y interface{}) bool {
				a, b := x.(ids), y.(ids)
				return a.c < b.c || a.c == b.c && a.d < b.d
			}, func(v interface{}) interface{} { return [][]int64{trace.I64(v.(ids).c), trace.I64(v.(ids).d)} },
			func(r *rand.Rand) interface{} { return ids{genI(r).(int64), genI(r).(int64)} }, nil},
		{"indexname", true, func(b []byte, v interface{}) []byte {
			return dml.EncodeCollectionIndexName2IDKey(b, v.(name).c, v.(name).s)
		}, func(b []byte) (interface{}, []byte, error) {
			c, s, err := dml.DecodeCollectionIndexName2IDKey(b)
			return name{c, string(s)}, nil, err
		}, lessName, formName, genName, nil},
		{"indexnamelegacy", true, func(b []byte, v interface{}) []byte {
			return document.EncodeCollectionIndexName2IDKey(b, v.(name).c, v.(name).s)
		}, func(b []byte) (interface{}, []byte, error) {
			c, s, err := document.DecodeCollectionIndexName2IDKey(b)
			return name{c, string(s)}, nil, err
		}, lessName, formName, genName, nil},
		{"varint", false, func(b []byte, v interface{}) []byte { return compact.EncodeVarint(b, v.(int64)) }, func(b []byte) (interface{}, []byte, error) { l, v, err := compact.DecodeVarint(b); return v, l, err }, lessI, formI, genI, edgesI},
		{"uvarint", false, func(b []byte, v interface{}) []byte { return compact.EncodeUvarint(b, v.(uint64)) }, func(b []byte) (interface{}, []byte, error) { l, v, err := compact.DecodeUvarint(b); return v, l, err }, lessU, formU, genU, edgesU},
		{"compactbytes", false, func(b []byte, v interface{}) []byte { return compact.EncodeBytes(b, v.([]byte)) }, func(b []byte) (interface{}, []byte, error) { l, v, err := compact.DecodeBytes(b); return v, l, err }, lessBytes, formB, genBytes, be},
		{"human", false, func(b []byte, v interface{}) []byte { return append(b, numeric.Encode2Human(v.(int64))...) }, func(b []byte) (interface{}, []byte, error) { v, err := numeric.DecodeFromHuman(b); return v, nil, err }, lessI, formI, genI, edgesI},
		{"binary", false, func(b []byte, v interface{}) []byte { return numeric.Encode2Binary(v.(uint64), b) }, func(b []byte) (interface{}, []byte, error) { v, err := numeric.DecodeFromBinary(b); return v, nil, err }, lessU, formU, genU, edgesU},
	}
}

func lessName(x, y interface{}) bool {
	a, b := x.(name), y.(name)
	return a.c < b.c || a.c == b.c && a.s < b.s
}
func formName(v interface{}) interface{} {
	return []interface{}{trace.I64(v.(name).c), trace.K([]byte(v.(name).s))}
}
func genName(r *rand.Rand) interface{} {
	return name{int64(r.Intn(3) - 1), string(genBytes(r).([]byte))}
}

func errClass(err error) string {
	if err != nil {
		return "err"
	}
	return "ok"
}

// input places b in front of other memory: decoders must not look past their input.
func input(b []byte) (s []byte, unchanged func() bool) {
	m := make([]byte, len(b)+32)
	copy(m, b)
	for i := len(b); i < len(m); i++ {
		m[i] = byte(r.Intn(256))
	}
	c := append([]byte{}, m...)
	return m[:len(b)], func() bool { return bytes.Equal(m, c) }
}

func guard(w *trace.W, ev trace.Ev, f func() string) {
	res, detail := trace.Guard(f)
	ev["r"] = res
	if res == "panic" || res == "hang" {
		ev = trace.Ev{"e": "died", "op": ev["e"], "c": ev["c"], "in": ev["in"], "r": res, "detail": detail}
	}
	w.Emit(ev)
}

func order(w *trace.W, c codec, vals []interface{}) {
	sort.SliceStable(vals, func(i, j int) bool { return c.less(vals[i], vals[j]) })
	for i := 0; i < len(vals); i += 24 {
		j := i + 25 // overlap by one: the whole list is one chain
		if j > len(vals) {
			j = len(vals)
		}
		if j-i < 2 {
			break
		}
		vs, es := []interface{}{}, [][]int{}
		ev := trace.Ev{"e": "order", "c": c.name}
		res, detail := trace.Guard(func() string {
			for _, v := range vals[i:j] {
				vs = append(vs, c.form(v))
				es = append(es, trace.K(c.enc(nil, v)))
			}
			return "ok"
		})
		if res != "ok" {
			ev = trace.Ev{"e": "died", "op": "order", "c": c.name, "detail": detail}
		} else {
			ev["vs"], ev["es"] = vs, es
		}
		w.Emit(ev)
	}
}

func round(w *trace.W, c codec, v interface{}) {
	whole := c.name == "human" || c.name == "binary" || c.name == "dockey" || c.name == "indexname" || c.name == "indexnamelegacy"
	pre := genBytes(r).([]byte)
	junk := genBytes(r).([]byte)
	if whole {
		junk = []byte{}
	}
	ev := trace.Ev{"e": "round", "c": c.name, "v": c.form(v), "pre": trace.K(pre), "junk": trace.K(junk)}
	guard(w, ev, func() string {
		// with and without room to grow in place
		dst := append(make([]byte, 0, len(pre)+r.Intn(3)*40), pre...)
		o := c.enc(dst, v)
		ev["out"] = trace.K(o)
		if len(o) < len(pre) {
			return "short"
		}
		i, same := input(append(append([]byte{}, o[len(pre):]...), junk...))
		dv, rest, err := c.dec(i)
		ev["keep"] = same()
		if err == nil {
			ev["dv"], ev["rest"] = c.form(dv), trace.K(rest)
		} else {
			ev["dv"], ev["rest"] = c.form(v), []int{}
		}
		return errClass(err)
	})
}

func decode(w *trace.W, c codec, b []byte) {
	ev := trace.Ev{"e": "decode", "c": c.name, "in": trace.K(b), "nan": false}
	guard(w, ev, func() string {
		i, same := input(b)
		v, rest, err := c.dec(i)
		ev["keep"] = same()
		if err == nil {
			if f, ok := v.(float64); ok && f != f {
				ev["nan"] = true
			}
			ev["v"], ev["rest"] = c.form(v), trace.K(rest)
			ev["re"] = trace.K(c.enc(nil, v))
		}
		return errClass(err)
	})
}

func parse(w *trace.W, c string, b []byte, isNil bool) {
	ev := trace.Ev{"e": "parse", "c": c, "in": trace.K(b), "v": []int{}, "w": []int{}}
	if c == "human" {
		n, ok := new(big.Int).SetString(string(b), 10)
		if ok && n.IsInt64() {
			ev["w"] = trace.I64(n.Int64())
		}
	} else if len(b) == 8 {
		var n uint64
		for _, x := range b {
			n = n<<8 | uint64(x)
		}
		ev["w"] = trace.U64(n)
	}
	guard(w, ev, func() string {
		i, same := input(b)
		if isNil {
			i = nil
		}
		var err error
		if c == "human" {
			var n int64
			n, err = numeric.DecodeFromHuman(i)
			ev["v"] = trace.I64(n)
		} else {
			var n uint64
			n, err = numeric.DecodeFromBinary(i)
			ev["v"] = trace.U64(n)
		}
		ev["keep"] = same()
		return errClass(err)
	})
}

func keys(w *trace.W, ks [][]byte) {
	same := func(a, b []byte) func() bool {
		ca, cb := append([]byte{}, a...), append([]byte{}, b...)
		return func() bool { return bytes.Equal(a, ca) && bytes.Equal(b, cb) }
	}
	mk := func(b []byte) (kv.Key, []byte) { // a key with other memory behind it
		m := append(append([]byte{}, b...), 5, 6, 7)
		return kv.Key(m[:len(b)]), m
	}
	for n, b := range ks {
		if n%20 == 0 {
			w.Reset(nil)
		}
		emit := func(ev trace.Ev, f func()) {
			if res, d := trace.Guard(func() string { f(); return "ok" }); res != "ok" {
				ev = trace.Ev{"e": "died", "op": ev["e"], "k": trace.K(b), "detail": d}
			}
			w.Emit(ev)
		}
		k, m := mk(b)
		s := same(m, nil)
		ev := trace.Ev{"e": "next", "k": trace.K(b)}
		emit(ev, func() { ev["r"] = trace.K(k.Next()); ev["keep"] = s() })
		ev2 := trace.Ev{"e": "pnext", "k": trace.K(b)}
		emit(ev2, func() { ev2["r"] = trace.K(k.PrefixNext()); ev2["keep"] = s() })
		ev3 := trace.Ev{"e": "clone", "k": trace.K(b)}
		emit(ev3, func() {
			c := k.Clone()
			ev3["r"] = trace.K(c)
			for i := range c {
				c[i] ^= 0x55
			}
			_ = append(c, 99)
			ev3["indep"] = s()
		})
		ev4 := trace.Ev{"e": "string", "k": trace.K(b), "hex": hex.EncodeToString(b)}
		emit(ev4, func() { ev4["r"] = k.String() })
	}
	point := func(a, b []byte) {
		ka, ma := mk(a)
		kb, mb := mk(b)
		s := same(ma, mb)
		ev := trace.Ev{"e": "ispoint", "s": trace.K(a), "t": trace.K(b), "snext": []int{-1}}
		res, d := trace.Guard(func() string {
			for _, x := range a {
				if x != 255 {
					ev["snext"] = trace.K(ka.PrefixNext())
				}
			}
			kr := kv.KeyRange{StartKey: ka, EndKey: kb}
			ev["r"] = kr.IsPoint()
			ev["keep"] = s()
			return "ok"
		})
		if res != "ok" {
			ev = trace.Ev{"e": "died", "op": "ispoint", "s": trace.K(a), "t": trace.K(b), "detail": d}
		}
		w.Emit(ev)
		ev = trace.Ev{"e": "cmp", "s": trace.K(a), "t": trace.K(b)}
		res, d = trace.Guard(func() string {
			ev["r"], ev["hp"] = ka.Cmp(kb), ka.HasPrefix(kb)
			ev["keep"] = s()
			return "ok"
		})
		if res != "ok" {
			ev = trace.Ev{"e": "died", "op": "cmp", "detail": d}
		}
		w.Emit(ev)
	}
	for i, a := range ks {
		if i%4 == 0 {
			w.Reset(nil)
		}
		for _, b := range ks {
			if len(a)+len(b) <= 3 || *size > 1 || r.Intn(20) == 0 {
				point(a, b)
			}
		}
		for _, b := range [][]byte{append(append([]byte{}, a...), 0), append(append([]byte{}, a...), 1), append(append([]byte{}, a...), 0, 0), kv.Key(a).PrefixNext(), a} {
			point(a, b)
		}
		// near misses around the prefix successor
		n := kv.Key(a).PrefixNext()
		for j := range n {
			for _, x := range []byte{1, 255} {
				m := append([]byte{}, n...)
				m[j] += x
				point(a, m)
			}
		}
		for j := range a {
			m := append([]byte{}, a...)
			m[j]++
			point(a, m)
		}
	}
}

func main() {
	flag.Parse()
	r = rand.New(rand.NewSource(*seed*17 + 5))
	w := trace.Open(*out)
	defer w.Close()
	var bvals, mal, keyvals [][]byte
	f, err := os.Open(*in)
	trace.Must(err, "open behaviours")
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var x struct {
			K string
			V []int
		}
		trace.Must(json.Unmarshal(sc.Bytes(), &x), "parse behaviour")
		switch x.K {
		case "b":
			bvals = append(bvals, trace.UnK(x.V))
		case "m":
			mal = append(mal, trace.UnK(x.V))
		case "k":
			keyvals = append(keyvals, trace.UnK(x.V))
		}
	}
	f.Close()
	setup(bvals)
	switch *prop {
	case "C01":
		for _, c := range codecs {
			vals := append([]interface{}{}, c.edges...)
			for i := 0; i < 100**size; i++ {
				vals = append(vals, c.gen(r))
			}
			if c.name == "uint8" || c.name == "uint8desc" {
				for i := 0; i < 256; i++ {
					vals = append(vals, uint64(i))
				}
			}
			if c.ordered {
				w.Reset(trace.Ev{"codec": c.name})
				order(w, c, append([]interface{}{}, vals...))
			}
			for i, v := range vals {
				if i%25 == 0 {
					w.Reset(trace.Ev{"codec": c.name})
				}
				round(w, c, v)
			}
		}
		w.Reset(nil)
		for n := 0; n < 70; n++ {
			ev := trace.Ev{"e": "enclen", "n": n}
			res, d := trace.Guard(func() string {
				ev["r"], ev["len"] = mc.EncodedBytesLength(n), len(mc.EncodeBytes(nil, make([]byte, n)))
				return "ok"
			})
			if res != "ok" {
				ev = trace.Ev{"e": "died", "detail": d}
			}
			w.Emit(ev)
		}
	case "C02":
		for _, c := range codecs {
			if c.name == "human" || c.name == "binary" {
				continue
			}
			var ins [][]byte
			switch c.name {
			case "bytes":
				ins = append(ins, mal...)
			case "bytesdesc":
				for _, b := range mal {
					x := append([]byte{}, b...)
					for i := range x {
						x[i] = ^x[i]
					}
					ins = append(ins, x)
				}
			}
			// corruptions and truncations of valid encodings, and plain noise
			for i := 0; i < 30**size; i++ {
				e := c.enc(nil, c.gen(r))
				for k := 0; k < 4 && len(e) > 0; k++ {
					x := append([]byte{}, e...)
					switch r.Intn(5) {
					case 0:
						x = x[:r.Intn(len(x))]
					case 1:
						x[r.Intn(len(x))] = []byte{0, 1, 8, 127, 128, 246, 247, 248, 254, 255}[r.Intn(10)]
					case 2:
						x[r.Intn(len(x))] ^= 1 << uint(r.Intn(8))
					case 3:
						j := r.Intn(len(x))
						x = append(x[:j], x[j+1:]...)
					case 4:
						j := r.Intn(len(x) + 1)
						x = append(x[:j], append([]byte{byte(r.Intn(256))}, x[j:]...)...)
					}
					ins = append(ins, x)
				}
				ins = append(ins, genBytes(r).([]byte))
			}
			ins = append(ins, nil, []byte{}, []byte{0}, []byte{255}, bytes.Repeat([]byte{255}, 9), bytes.Repeat([]byte{128}, 9), bytes.Repeat([]byte{128}, 11), append(bytes.Repeat([]byte{255}, 9), 1), append(bytes.Repeat([]byte{255}, 9), 2), append(bytes.Repeat([]byte{254}, 9), 1), append(bytes.Repeat([]byte{128}, 9), 1), []byte{1, 2, 3}, []byte{3}, []byte{128, 0}, []byte{129, 0, 5})
			for i := 1; i <= 10; i++ {
				ins = append(ins, bytes.Repeat([]byte{255}, i), bytes.Repeat([]byte{0}, i), append(bytes.Repeat([]byte{255}, i), 0))
			}
			for i, b := range ins {
				if i%25 == 0 {
					w.Reset(trace.Ev{"codec": c.name})
				}
				decode(w, c, b)
			}
		}
		w.Reset(nil)
		parse(w, "human", nil, true)
		parse(w, "binary", nil, true)
		words := []string{"", "-", " 1", "1 ", "1.0", "0x10", "1e3", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "99999999999999999999999", "a", "1a", "0", "1", "-1", "10", "\x00", "1\x00", "--1", "1_000", "\xff"}
		for i := 0; i < 40**size; i++ {
			n := genI(r).(int64)
			s := fmt.Sprint(n)
			words = append(words, s)
			x := []byte(s)
			x[r.Intn(len(x))] = byte(r.Intn(256))
			if x[0] != '+' && x[0] != '0' && !(x[0] == '-' && len(x) > 1 && x[1] == '0') {
				words = append(words, string(x))
			}
		}
		for i, s := range words {
			if i%25 == 0 {
				w.Reset(nil)
			}
			parse(w, "human", []byte(s), false)
		}
		w.Reset(nil)
		for n := 0; n < 20; n++ {
			b := make([]byte, n)
			r.Read(b)
			parse(w, "binary", b, false)
		}
	case "C03":
		for i := 0; i < 30**size; i++ {
			b := genBytes(r).([]byte)
			keyvals = append(keyvals, b, append(append([]byte{}, b...), 255))
		}
		keys(w, keyvals)
	default:
		trace.Fatal("unknown property %q", *prop)
	}
}
