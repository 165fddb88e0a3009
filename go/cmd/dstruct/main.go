// dstruct drives hashes, lists, strings and counters (properties S01..S03).
package main

import (
	"bufio"
	"encoding/hex"
	"encoding/json"
	"flag"
	"math"
	"math/rand"
	"os"
	"strconv"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/structure"
	"mondisverif/kvx"
	"mondisverif/trace"
)

var (
	prop = flag.String("prop", "", "")
	seed = flag.Int64("seed", 1, "")
	size = flag.Int("size", 1, "scale factor")
	out  = flag.String("out", "", "")
	in   = flag.String("in", "", "behaviours generated from the specification")
)

type val struct {
	B string  `json:"b"` // hex
	N []int64 `json:"n"`
}

type op struct {
	E    string  `json:"e"`
	T    int     `json:"t"`
	P    []int   `json:"p"`
	N    []int   `json:"n"`
	F    []int   `json:"f"`
	Fs   [][]int `json:"fs"`
	Val  val     `json:"val"`
	Vals []val   `json:"vals"`
	Step []int64 `json:"step"`
	C    int64   `json:"c"`
	I    int64   `json:"-"`
	// the Fault-th access to the store fails, before or after it has happened
	Fault int  `json:"-"`
	After bool `json:"-"`
}

func (v val) bytes() []byte {
	b, err := hex.DecodeString(v.B)
	trace.Must(err, "value")
	return b
}

type runner struct {
	w    *trace.W
	l    *kvx.Local
	kv   *kvx.Wrap
	txns map[int]mondis.ProviderTxn
	dead bool

	fault int
	after bool
	fired bool
}

func (r *runner) hook(c kvx.Call) error {
	if c.Op == "begin" || r.fault == 0 || c.After != r.after {
		return nil
	}
	if r.fault--; r.fault > 0 {
		return nil
	}
	r.fired = true
	return kvx.ErrInjected
}

func newRunner(w *trace.W) *runner {
	w.Reset(nil)
	r := &runner{w: w, l: kvx.OpenLocal("badger"), txns: map[int]mondis.ProviderTxn{}}
	r.kv = &kvx.Wrap{KVDB: r.l.KV, Hook: r.hook}
	return r
}

func hashPairs(ps []structure.HashPair) []trace.Ev {
	r := []trace.Ev{}
	for _, p := range ps {
		r = append(r, trace.Ev{"f": trace.K(p.Field), "v": trace.V(p.Value)})
	}
	return r
}

func (r *runner) run(o op) {
	if r.dead {
		return
	}
	ev := trace.Ev{"e": o.E, "t": o.T}
	var f func() string
	name := trace.UnK(o.N)
	field := trace.UnK(o.F)
	var s *structure.TxStructure
	if o.E != "begin" && o.E != "commit" && o.E != "discard" && o.E != "raw" {
		txn := r.txns[o.T]
		if txn == nil { // it ended with a failure
			return
		}
		s = structure.New(txn, trace.UnK(o.P))
		ev["p"], ev["n"] = trace.K(trace.UnK(o.P)), trace.K(name)
	}
	num := func(i int64, err error) string {
		ev["i"] = trace.I64(i)
		return kvx.ErrClass(err)
	}
	inc := func(i int64, err error) string {
		ev["b"] = trace.V([]byte(strconv.FormatInt(i, 10)))
		return num(i, err)
	}
	cnt := func(c int64, err error) string {
		if c < math.MinInt32 || c > math.MaxInt32 {
			c = math.MinInt32
		}
		ev["c"] = c
		return kvx.ErrClass(err)
	}
	data := func(b []byte, err error) string {
		ev["v"] = trace.V(b)
		kvx.Scribble(b)
		return kvx.ErrClass(err)
	}
	pairs := func(ps []structure.HashPair, err error) string {
		ev["ps"] = hashPairs(ps)
		for _, p := range ps {
			kvx.Scribble(p.Field)
			kvx.Scribble(p.Value)
		}
		return kvx.ErrClass(err)
	}
	vals := func() (bs [][]byte) {
		es := []trace.Ev{}
		for _, v := range o.Vals {
			bs = append(bs, v.bytes())
			es = append(es, trace.Val(v.bytes()))
		}
		ev["vals"] = es
		return
	}
	step := int64(0)
	if len(o.Step) == 3 {
		step = trace.UnI64(o.Step)
		ev["step"] = trace.I64(step)
	}
	switch o.E {
	case "begin":
		f = func() string { r.txns[o.T] = r.kv.NewTransaction(true); return "ok" }
	case "commit":
		txn := r.txns[o.T]
		if txn == nil {
			return
		}
		delete(r.txns, o.T)
		f = func() string { err := txn.Commit(); txn.Discard(); return kvx.ErrClass(err) }
	case "discard":
		txn := r.txns[o.T]
		if txn == nil {
			return
		}
		delete(r.txns, o.T)
		f = func() string { txn.Discard(); return "ok" }
	case "raw":
		if r.txns[o.T] == nil {
			return
		}
		ev["some"] = false
		f = func() string {
			err := r.txns[o.T].Scan(mondis.ProviderScanOption{}, func(k, _ []byte, _ mondis.VMetaResp) bool { ev["some"] = true; return false })
			return kvx.ErrClass(err)
		}
	case "hset":
		ev["f"], ev["val"] = trace.K(field), trace.Val(o.Val.bytes())
		f = func() string { return kvx.ErrClass(s.HSet(name, field, o.Val.bytes())) }
	case "hsetint":
		ev["f"], ev["val"] = trace.K(field), trace.Val([]byte(strconv.FormatInt(o.I, 10)))
		f = func() string { return kvx.ErrClass(s.HSetInt64(name, field, o.I)) }
	case "hget":
		ev["f"] = trace.K(field)
		f = func() string { return data(s.HGet(name, field)) }
	case "hgetint":
		ev["f"] = trace.K(field)
		f = func() string { return num(s.HGetInt64(name, field)) }
	case "hinc":
		ev["f"] = trace.K(field)
		f = func() string { return inc(s.HInc(name, field, step)) }
	case "hlen":
		f = func() string { return cnt(s.HLen(name)) }
	case "hdel":
		var fs [][]byte
		es := [][]int{}
		for _, x := range o.Fs {
			fs = append(fs, trace.UnK(x))
			es = append(es, trace.K(trace.UnK(x)))
		}
		ev["fs"] = es
		f = func() string { return kvx.ErrClass(s.HDel(name, fs...)) }
	case "hkeys":
		f = func() string {
			ks, err := s.HKeys(name)
			es := [][]int{}
			for _, k := range ks {
				es = append(es, trace.K(k))
				kvx.Scribble(k)
			}
			ev["fs"] = es
			return kvx.ErrClass(err)
		}
	case "hgetn":
		ev["c"] = o.C
		f = func() string { return pairs(s.HGetN(name, int(o.C))) }
	case "hgetndesc":
		ev["c"] = o.C
		f = func() string { return pairs(s.HGetNDesc(name, int(o.C))) }
	case "hgetall":
		f = func() string { return pairs(s.HGetAll(name)) }
	case "hclear":
		f = func() string { return kvx.ErrClass(s.HClear(name)) }
	case "lpush":
		bs := vals()
		f = func() string { return kvx.ErrClass(s.LPush(name, bs...)) }
	case "rpush":
		bs := vals()
		f = func() string { return kvx.ErrClass(s.RPush(name, bs...)) }
	case "lpop":
		f = func() string { return data(s.LPop(name)) }
	case "rpop":
		f = func() string { return data(s.RPop(name)) }
	case "llen":
		f = func() string { return cnt(s.LLen(name)) }
	case "lgetall":
		f = func() string {
			bs, err := s.LGetAll(name)
			vs := []string{}
			for _, b := range bs {
				vs = append(vs, trace.V(b))
				kvx.Scribble(b)
			}
			ev["vs"] = vs
			return kvx.ErrClass(err)
		}
	case "lindex":
		ev["c"] = o.C
		f = func() string { return data(s.LIndex(name, o.C)) }
	case "lset":
		ev["c"], ev["val"] = o.C, trace.Val(o.Val.bytes())
		f = func() string { return kvx.ErrClass(s.LSet(name, o.C, o.Val.bytes())) }
	case "lclear":
		f = func() string { return kvx.ErrClass(s.LClear(name)) }
	case "sset":
		ev["val"] = trace.Val(o.Val.bytes())
		f = func() string { return kvx.ErrClass(s.Set(name, o.Val.bytes())) }
	case "ssetint":
		ev["val"] = trace.Val([]byte(strconv.FormatInt(o.I, 10)))
		f = func() string { return kvx.ErrClass(s.SetInt64(name, o.I)) }
	case "sget":
		f = func() string { return data(s.Get(name)) }
	case "sgetint":
		f = func() string { return num(s.GetInt64(name)) }
	case "sinc":
		f = func() string { return inc(s.Inc(name, step)) }
	case "sclear":
		f = func() string { return kvx.ErrClass(s.Clear(name)) }
	default:
		trace.Fatal("unknown op %+v", o)
	}
	r.fault, r.after, r.fired = o.Fault, o.After, false
	res, detail := trace.Guard(f)
	r.fault = 0
	if r.fired && res != "ok" { // what succeeds all the same has done what it is for
		ev = trace.Ev{"e": "faulty", "op": o.E, "t": o.T}
		defer r.run(op{E: "discard", T: o.T})
	}
	if res == "hang" {
		ev = trace.Ev{"e": "hung", "op": o.E, "t": o.T}
		r.dead = true
	}
	ev["r"] = res
	if res == "panic" {
		ev["e"], ev["op"] = "died", o.E
	}
	if detail != "" {
		ev["detail"] = detail
	}
	r.w.Emit(ev)
}

// end ends whatever is open, then clears every structure used and looks at the raw store.
func (r *runner) end(cells map[string][]op) {
	for t := range r.txns {
		r.run(op{E: "discard", T: t})
	}
	r.run(op{E: "begin", T: 99})
	for _, os := range cells {
		for _, o := range os {
			o.T = 99
			r.run(o)
		}
	}
	r.run(op{E: "raw", T: 99})
	r.run(op{E: "commit", T: 99})
	r.run(op{E: "begin", T: 98})
	r.run(op{E: "raw", T: 98})
	r.run(op{E: "discard", T: 98})
	if !r.dead {
		r.l.Close()
	}
}

// remember how to read and clear the structure an operation touches
func remember(cells map[string][]op, o op) {
	var k string
	var fin []op
	switch o.E[0] {
	case 'h':
		k, fin = "h", []op{{E: "hlen"}, {E: "hgetall"}, {E: "hgetndesc", C: 9}, {E: "hclear"}, {E: "hlen"}, {E: "hkeys"}}
	case 'l':
		k, fin = "l", []op{{E: "llen"}, {E: "lgetall"}, {E: "lclear"}, {E: "lindex"}}
	case 's':
		k, fin = "s", []op{{E: "sget"}, {E: "sclear"}, {E: "sget"}}
	}
	j, _ := json.Marshal([]interface{}{k, o.P, o.N})
	if _, ok := cells[string(j)]; ok {
		return
	}
	for i := range fin {
		fin[i].P, fin[i].N = o.P, o.N
	}
	cells[string(j)] = fin
}

func program(w *trace.W, ops []op) {
	r := newRunner(w)
	cells := map[string][]op{}
	for _, o := range ops {
		if o.E != "begin" && o.E != "commit" && o.E != "discard" && o.E != "raw" {
			remember(cells, o)
		}
		r.run(o)
	}
	r.end(cells)
}

func main() {
	flag.Parse()
	w := trace.Open(*out)
	defer w.Close()
	if *in != "" {
		f, err := os.Open(*in)
		trace.Must(err, "open behaviours")
		sc := bufio.NewScanner(f)
		sc.Buffer(make([]byte, 1<<20), 1<<26)
		for sc.Scan() {
			var b []op
			trace.Must(json.Unmarshal(sc.Bytes(), &b), "parse behaviour")
			program(w, b)
		}
		f.Close()
	}
	r := rand.New(rand.NewSource(*seed*31 + int64((*prop)[2])))
	for s := 0; s < 40**size; s++ {
		program(w, random(r, *prop))
	}
	for s := 0; s < 4**size; s++ {
		program(w, bare(r, *prop))
		program(w, similar(r, *prop))
	}
	if *prop != "S03" {
		for s := 0; s < 2**size; s++ {
			program(w, populated(r, *prop))
		}
	}
}
