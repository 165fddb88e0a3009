// dseq drives id sequences (properties Q01, Q02).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"sync"
	"sync/atomic"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/keyspace"
	"github.com/zhiqiangxu/mondis/document/meta/sequence"
	"github.com/zhiqiangxu/mondis/structure"
	"mondisverif/kvx"
	"mondisverif/trace"
)

var (
	prop = flag.String("prop", "", "")
	seed = flag.Int64("seed", 1, "")
	size = flag.Int("size", 1, "scale factor")
	out  = flag.String("out", "", "")
	in   = flag.String("in", "", "behaviours generated from the specification")
)

// api is what the three implementations have in common.
type api interface {
	Next() (int64, error)
	NextN(n int64) ([]sequence.IDRange, error)
	PutBack(v int64)
	ReNew() error
	ReleaseRemaining() error
	Close(rel bool) error
	Clear() error
}

type modern struct{ *sequence.Sequence }

func (m modern) PutBack(v int64) {
	vs := []int64{v, -1, -1}
	m.Sequence.PutBack(vs[:1]...)
	vs[0], vs[1] = -7, -7 // it is the caller's
}

type legacy struct{ *document.Sequence }

func (l legacy) Next() (int64, error) {
	v, err := l.Sequence.Next()
	return int64(v), err
}
func (legacy) NextN(int64) ([]sequence.IDRange, error) { panic("harness: not offered") }
func (legacy) PutBack(int64)                           { panic("harness: not offered") }
func (legacy) ReNew() error                            { panic("harness: not offered") }
func (legacy) Close(bool) error                        { panic("harness: not offered") }
func (legacy) Clear() error                            { panic("harness: not offered") }

type cfg struct {
	kind    string
	name    string
	field   string
	bw      int64
	ambient bool // other values around, looked at in the end
}

func (c cfg) open(db mondis.KVDB) (api, error) {
	switch c.kind {
	case "string":
		s, err := sequence.NewString(db, []byte(c.name), c.bw)
		if err != nil {
			return nil, err
		}
		return modern{&s.Sequence}, nil
	case "hash":
		s, err := sequence.NewHash(db, []byte(c.name), []byte(c.field), c.bw)
		if err != nil {
			return nil, err
		}
		return modern{&s.Sequence}, nil
	}
	s, err := document.NewSequence(db, []byte(c.name), uint64(c.bw))
	if err != nil {
		return nil, err
	}
	return legacy{s}, nil
}

type inst struct {
	id     int
	s      api
	st     string // none idle mid closed dead
	w      *kvx.Wrap
	gate   bool
	inject string // an operation kind to fail once
	fired  bool
	over   bool
	parked chan bool
	resume chan string
	done   chan trace.Ev
	outs   []int64 // ids handed out by Next and not put back
	clear  bool
}

type runner struct {
	w     *trace.W
	l     *kvx.Local
	c     cfg
	insts map[int]*inst
	dead  bool
	base  string
}

func newRunner(w *trace.W, c cfg, how string) *runner {
	w.Reset(trace.Ev{"prop": *prop, "kind": c.kind, "bw": c.bw, "how": how})
	r := &runner{w: w, l: kvx.OpenLocal("badger"), c: c, insts: map[int]*inst{}}
	if c.ambient {
		r.setAmbient()
		r.base = r.ambientState()
	}
	return r
}

// values next to the sequence: the same name with something before or behind it, other
// fields of the same hash, the same name as another kind of value, other sequences
func (r *runner) setAmbient() {
	txn := r.l.KV.NewTransaction(true)
	defer txn.Discard()
	s := structure.New(txn, keyspace.MetaPrefixBytes)
	n := []byte(r.c.name)
	if r.c.kind != "string" {
		trace.Must(s.Set(n, []byte("v")), "ambient")
	}
	trace.Must(s.Set(append(append([]byte{}, n...), 'x'), []byte("17")), "ambient")
	trace.Must(s.Set(append(append([]byte{}, n...), 0), []byte("y")), "ambient")
	for _, f := range []string{"", "a", r.c.field + "x", r.c.field + "\x00", "zz"} {
		if f != r.c.field || r.c.kind != "hash" {
			trace.Must(s.HSet(n, []byte(f), []byte("21")), "ambient")
		}
	}
	for _, v := range []string{"1", "", "3"} {
		trace.Must(s.RPush([]byte(r.c.name), []byte(v)), "ambient")
	}
	trace.Must(txn.Set([]byte("\x00outside"), []byte("o"), nil), "ambient")
	trace.Must(txn.Set([]byte("zzz"), []byte("o"), nil), "ambient")
	trace.Must(txn.Commit(), "ambient")
	for _, k := range []string{"string", "hash", "legacy"} {
		o := cfg{kind: k, name: r.c.name + "-other", field: "f2", bw: 3}
		q, err := o.open(r.l.KV)
		trace.Must(err, "ambient sequence")
		_, err = q.Next()
		trace.Must(err, "ambient sequence")
	}
}

// ambientState is everything stored except the sequence itself.
func (r *runner) ambientState() string {
	var own []byte
	switch r.c.kind {
	case "legacy":
		own = document.EncodeMetaSequenceKey(nil, []byte(r.c.name))
	}
	txn := r.l.KV.NewTransaction(false)
	defer txn.Discard()
	s := structure.New(txn, keyspace.MetaPrefixBytes)
	res := ""
	if r.c.kind == "legacy" {
		txn.Scan(mondis.ProviderScanOption{}, func(k, v []byte, m mondis.VMetaResp) bool {
			if string(k) != string(own) {
				res += fmt.Sprintf("%x=%x;", k, v)
			}
			return true
		})
		return res
	}
	n := []byte(r.c.name)
	get := func(k []byte) {
		v, err := s.Get(k)
		res += fmt.Sprintf("S%x=%x %v;", k, v, err)
	}
	if r.c.kind != "string" {
		get(n)
	}
	get(append(append([]byte{}, n...), 'x'))
	get(append(append([]byte{}, n...), 0))
	get([]byte(r.c.name + "-other"))
	for _, h := range [][]byte{n, []byte(r.c.name + "-other")} {
		ps, err := s.HGetAll(h)
		sort.Slice(ps, func(i, j int) bool { return string(ps[i].Field) < string(ps[j].Field) })
		res += fmt.Sprintf("H%x %v:", h, err)
		for _, p := range ps {
			if r.c.kind == "hash" && string(h) == r.c.name && string(p.Field) == r.c.field {
				continue
			}
			res += fmt.Sprintf("%x=%x,", p.Field, p.Value)
		}
	}
	ll, err := s.LLen(n)
	res += fmt.Sprintf("L%d %v:", ll, err)
	for i := int64(0); i < int64(ll); i++ {
		v, err := s.LIndex(n, i)
		res += fmt.Sprintf("%x %v,", v, err)
	}
	for _, k := range []string{"\x00outside", "zzz"} {
		v, _, err := txn.Get([]byte(k))
		res += fmt.Sprintf("%x %v,", v, err)
	}
	v, _, err := txn.Get(document.EncodeMetaSequenceKey(nil, []byte(r.c.name+"-other")))
	return res + fmt.Sprintf("%x %v", v, err)
}

func (r *runner) bystander(i int) {
	if r.c.ambient && !r.dead {
		r.w.Emit(trace.Ev{"e": "bystander", "i": i, "same": r.ambientState() == r.base})
	}
}

func clamp(v int64) int64 {
	if v > math.MaxInt32 || v < math.MinInt32 {
		return -9
	}
	return v
}

func ranges(rs []sequence.IDRange) [][2]int64 {
	res := [][2]int64{}
	for _, x := range rs {
		res = append(res, [2]int64{clamp(x.Start), clamp(x.End)})
	}
	return res
}

func class(err error) string {
	if err == sequence.ErrSequenceClosed {
		return "closed"
	}
	return kvx.ErrClass(err)
}

// exec performs one call on the real instance.
func exec(in *inst, c cfg, op string, n int64, ev trace.Ev) {
	r, detail := trace.Guard(func() string {
		switch op {
		case "new":
			s, err := c.open(in.w)
			if err == nil {
				in.s = s
			}
			return class(err)
		case "next":
			v, err := in.s.Next()
			ev["v"] = clamp(v)
			return class(err)
		case "nextn":
			rs, err := in.s.NextN(n)
			ev["n"], ev["rs"] = n, ranges(rs)
			return class(err)
		case "putback":
			in.s.PutBack(n)
			ev["v"] = n
			return "ok"
		case "renew":
			return class(in.s.ReNew())
		case "release":
			return class(in.s.ReleaseRemaining())
		case "closerel", "close":
			ev["rel"] = op == "closerel"
			return class(in.s.Close(op == "closerel"))
		case "clear":
			return class(in.s.Clear())
		}
		panic("harness: " + op)
	})
	ev["r"] = r
	if detail != "" {
		ev["detail"] = detail
	}
}

func (r *runner) get(i int) *inst {
	in := r.insts[i]
	if in == nil {
		in = &inst{id: i, st: "none", parked: make(chan bool), resume: make(chan string), done: make(chan trace.Ev)}
		r.insts[i] = in
		in.w = &kvx.Wrap{KVDB: r.l.KV}
		how := ""
		in.w.Hook = func(c kvx.Call) error {
			if !c.After && in.inject == c.Op {
				in.inject, in.fired = "", true
				return kvx.ErrInjected
			}
			if c.Op != "commit" || !in.gate {
				return nil
			}
			if !c.After {
				in.parked <- true
				how = <-in.resume
				if how == "failbefore" {
					in.fired = true
					return kvx.ErrInjected
				}
			} else if how == "failafter" && c.Err == nil {
				in.fired = true
				return kvx.ErrInjected
			}
			return nil
		}
	}
	return in
}

func (r *runner) mids() (res []*inst) {
	for _, in := range r.insts {
		if in.st == "mid" {
			res = append(res, in)
		}
	}
	return
}

// call starts an operation; it ends here, or stops before its commit.
func (r *runner) call(i int, op string, n int64, inject string) {
	in := r.get(i)
	if r.dead || in.st == "mid" || in.st == "dead" || (in.st == "none") != (op == "new") {
		return
	}
	for _, o := range r.mids() {
		if op == "clear" || o.clear {
			return
		}
	}
	if r.c.kind == "legacy" && op != "new" && op != "next" && op != "release" {
		return
	}
	if op == "putback" {
		if len(in.outs) == 0 || in.st == "closed" {
			return
		}
		k := int(n) % len(in.outs)
		n = in.outs[k]
		in.outs = append(in.outs[:k:k], in.outs[k+1:]...)
	}
	name := op
	if op == "closerel" {
		name = "close"
	}
	ev := trace.Ev{"e": name, "i": i, "conc": false}
	in.clear, in.over, in.fired, in.inject, in.gate = op == "clear", false, false, inject, true
	for _, o := range r.mids() {
		o.over, in.over = true, true
	}
	go func() {
		exec(in, r.c, op, n, ev)
		in.done <- ev
	}()
	r.wait(in)
}

func (r *runner) wait(in *inst) {
	select {
	case <-in.parked:
		in.st = "mid"
	case ev := <-in.done:
		ev["may"] = in.over || in.fired
		r.w.Emit(ev)
		in.inject = ""
		if ev["r"] == "hang" || ev["r"] == "panic" {
			r.dead = true
			return
		}
		ok := ev["r"] == "ok"
		if in.st != "closed" {
			in.st = "idle"
		}
		switch ev["e"] {
		case "new":
			if !ok {
				in.st = "none"
			}
		case "close":
			in.st = "closed"
		case "next":
			if ok {
				in.outs = append(in.outs, ev["v"].(int64))
			}
		case "clear":
			if ev["r"] == "closed" {
				break
			}
			for _, o := range r.insts {
				o.outs = nil
				if (o != in || !ok) && o.st != "none" && o.st != "closed" {
					o.st = "dead"
				}
			}
			if ok {
				r.bystander(in.id)
			}
		}
	}
}

func (r *runner) step(i int, how string) {
	in := r.get(i)
	if r.dead || in.st != "mid" {
		return
	}
	in.resume <- how
	r.wait(in)
}

// finish lets every stopped call run to its end.
func (r *runner) finish() {
	for i := 0; i < 20; i++ {
		m := r.mids()
		sort.Slice(m, func(a, b int) bool { return m[a].id < m[b].id })
		for _, in := range m {
			r.step(in.id, "ok")
		}
	}
}

// crash abandons the running process: an image of the store is opened in its place.
func (r *runner) crash(mode string) {
	if r.dead {
		return
	}
	if mode == "clean" {
		r.finish()
		if r.dead {
			return
		}
	}
	old := r.insts
	trace.Must(r.l.Reopen(mode), "reopen")
	for _, in := range old {
		if in.st == "mid" { // ends against the abandoned store
			in.resume <- "failbefore"
			go func(in *inst) {
				for {
					select {
					case <-in.parked:
						in.resume <- "failbefore"
					case <-in.done:
						return
					}
				}
			}(in)
		}
	}
	r.insts = map[int]*inst{}
	for i, in := range old {
		if in.st != "none" && !(in.st == "mid" && in.s == nil) {
			d := r.get(i)
			d.st = "dead"
		}
	}
	r.w.Emit(trace.Ev{"e": "crash", "i": 0})
}

func (r *runner) end() {
	if !r.dead {
		r.finish()
	}
	if !r.dead {
		r.bystander(0)
	}
	if !r.dead {
		trace.Must(r.l.Close(), "close")
		os.RemoveAll(r.l.Dir)
	}
}

type act struct {
	A   string `json:"a"`
	I   int    `json:"i"`
	Op  string `json:"op"`
	N   int64  `json:"n"`
	How string `json:"how"`
}

func replay(w *trace.W, kind string, acts []act, k int) {
	r := newRunner(w, cfg{kind: kind, name: "seq", field: "f", bw: 3, ambient: k%3 == 0}, "generated")
	for _, a := range acts {
		switch a.A {
		case "call":
			r.call(a.I, a.Op, a.N, "")
		case "step":
			r.step(a.I, a.How)
		case "crash":
			r.crash("crash")
		}
	}
	r.end()
}

func random(w *trace.W, rnd *rand.Rand, kind string, n int) {
	names := []string{"seq", "a", "a\x00", "did", "\xff\xff", "0123456789abcdef"}
	c := cfg{kind: kind, name: names[rnd.Intn(len(names))], field: []string{"f", "1", "\x00", "\xff"}[rnd.Intn(4)], bw: int64(1 + rnd.Intn(7)), ambient: rnd.Intn(2) == 0}
	if rnd.Intn(8) == 0 {
		c.bw = 1000
	}
	r := newRunner(w, c, "random")
	mode := rnd.Intn(3) // 0: one instance at a time, 1: several, one call at a time, 2: interleaved
	pf := []float64{0, 0, 0.08, 0.2}[rnd.Intn(4)]
	cur, top := 1, 1
	for k := 0; k < n && !r.dead; k++ {
		if mode > 0 {
			cur = 1 + rnd.Intn(top)
			if rnd.Intn(8) == 0 && top < 5 {
				top++
				cur = top
			}
		}
		if in := r.get(cur); in.st == "dead" || (in.st == "closed" && rnd.Intn(3) == 0) {
			top++
			cur = top
		}
		how := "ok"
		if rnd.Float64() < pf {
			how = []string{"failbefore", "failafter"}[rnd.Intn(2)]
		}
		if r.get(cur).st == "mid" {
			r.step(cur, how)
			continue
		}
		inject := ""
		if rnd.Float64() < pf/2 {
			inject = []string{"get", "set", "delete", "scan"}[rnd.Intn(4)]
		}
		switch x := rnd.Intn(100); {
		case r.get(cur).st == "none":
			r.call(cur, "new", 0, inject)
		case x < 40:
			r.call(cur, "next", 0, inject)
		case x < 60:
			r.call(cur, "nextn", []int64{1, 2, c.bw % 50, c.bw%50 + 1, 2*(c.bw%50) + 3, 0, -1, -c.bw, int64(rnd.Intn(20))}[rnd.Intn(9)], inject)
		case x < 70:
			r.call(cur, "putback", int64(rnd.Intn(50)), "")
		case x < 75:
			r.call(cur, "renew", 0, inject)
		case x < 85:
			r.call(cur, "release", 0, inject)
		case x < 91:
			r.call(cur, "closerel", 0, inject)
		case x < 93:
			r.call(cur, "close", 0, inject)
		case x < 96:
			r.call(cur, "clear", 0, inject)
		case x < 98:
			r.crash([]string{"crash", "clean"}[rnd.Intn(2)])
		}
		if mode < 2 && r.get(cur).st == "mid" {
			r.step(cur, how)
		}
	}
	r.end()
}

// concurrent callers: some share an instance, some have one each
func concurrent(w *trace.W, rnd *rand.Rand, kind string, n int) {
	c := cfg{kind: kind, name: "seq", field: "f", bw: int64(1 + rnd.Intn(5)), ambient: true}
	r := newRunner(w, c, "concurrent")
	var wg sync.WaitGroup
	emit := func(ev trace.Ev) { ev["conc"], ev["may"] = true, true; w.Emit(ev) }
	do := func(in *inst, op string, n int64) string {
		name := op
		if op == "closerel" {
			name = "close"
		}
		ev := trace.Ev{"e": name, "i": in.id}
		exec(in, c, op, n, ev)
		emit(ev)
		return ev["r"].(string)
	}
	id := 0
	mk := func() *inst { id++; in := r.get(id); in.gate = false; return in }
	shared := []*inst{mk(), mk()}
	for _, in := range shared {
		if do(in, "new", 0) != "ok" {
			r.dead = true
		}
	}
	var own []*inst
	for g := 0; g < 2; g++ {
		own = append(own, mk())
	}
	seeds := []int64{}
	for g := 0; g < 6; g++ {
		seeds = append(seeds, rnd.Int63())
	}
	loop := func(g int, f func(x *rand.Rand)) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := rand.New(rand.NewSource(seeds[g]))
			for k := 0; k < n; k++ {
				f(x)
			}
		}()
	}
	for g := 0; g < 4; g++ {
		in := shared[g%2]
		loop(g, func(x *rand.Rand) {
			switch y := x.Intn(10); {
			case y < 6 || kind == "legacy" && y < 9:
				do(in, "next", 0)
			case y < 8:
				do(in, "nextn", int64(1+x.Intn(9)))
			case y < 9:
				do(in, "renew", 0)
			default:
				do(in, "release", 0)
			}
		})
	}
	for g := 0; g < 2; g++ {
		in := own[g]
		open := false
		var last int64
		loop(4+g, func(x *rand.Rand) {
			switch y := x.Intn(10); {
			case !open:
				open = do(in, "new", 0) == "ok"
			case y < 5:
				ev := trace.Ev{"e": "next", "i": in.id}
				exec(in, c, "next", 0, ev)
				emit(ev)
				last = 0
				if ev["r"] == "ok" {
					last = ev["v"].(int64)
				}
			case y < 6 && kind != "legacy" && last > 0:
				ev := trace.Ev{"e": "putback", "i": in.id, "v": last, "r": "ok"}
				emit(ev)
				in.s.PutBack(last)
				last = 0
			case y < 8 && kind != "legacy":
				do(in, "nextn", int64(1+x.Intn(9)))
			default:
				do(in, "release", 0)
			}
		})
	}
	wg.Wait()
	for _, in := range r.insts {
		in.st = "idle"
		if in.s == nil {
			in.st = "none"
		}
	}
	if rnd.Intn(2) == 0 {
		r.crash([]string{"crash", "clean"}[rnd.Intn(2)])
	}
	for k := 0; k < 8; k++ {
		if k == 0 {
			r.call(9, "new", 0, "")
		} else {
			r.call(9, "next", 0, "")
		}
		r.step(9, "ok")
	}
	r.end()
}

// returning: callers of one instance take ids and give them back, none waiting for another; then
// what was given back comes out again before anything new does
func returning(w *trace.W, rnd *rand.Rand, kind string, n int) {
	c := cfg{kind: kind, name: "seq", field: "f", bw: int64(1 + rnd.Intn(40)), ambient: true}
	r := newRunner(w, c, "returning")
	r.call(1, "new", 0, "")
	r.step(1, "ok")
	in := r.get(1)
	in.gate = false
	if in.st != "idle" {
		r.end()
		return
	}
	type noted struct {
		at int64
		ev trace.Ev
	}
	var (
		clock int64
		wg    sync.WaitGroup
		logs  [6][]noted
		back  int64
		seeds [6]int64
	)
	for g := range seeds {
		seeds[g] = rnd.Int63()
	}
	start := make(chan bool)
	for g := range logs {
		g := g
		wg.Add(1)
		go func() {
			defer wg.Done()
			x := rand.New(rand.NewSource(seeds[g]))
			var mine []int64
			<-start
			for k := 0; k < n; k++ {
				if len(mine) > 0 && x.Intn(2) == 0 {
					j := 1 + x.Intn(len(mine)%3+1)
					if j > len(mine) {
						j = len(mine)
					}
					vs := append([]int64{}, mine[len(mine)-j:]...)
					mine = mine[:len(mine)-j]
					for _, v := range vs {
						logs[g] = append(logs[g], noted{atomic.AddInt64(&clock, 1), trace.Ev{"e": "putback", "i": 1, "v": v, "r": "ok"}})
					}
					atomic.AddInt64(&back, int64(j))
					in.s.(modern).Sequence.PutBack(vs...)
					for i := range vs {
						vs[i] = -7
					}
					continue
				}
				ev := trace.Ev{"e": "next", "i": 1}
				exec(in, c, "next", 0, ev)
				logs[g] = append(logs[g], noted{atomic.AddInt64(&clock, 1), ev})
				if ev["r"] != "ok" {
					return
				}
				mine = append(mine, ev["v"].(int64))
			}
		}()
	}
	close(start)
	wg.Wait()
	var all []noted
	for _, l := range logs {
		all = append(all, l...)
	}
	sort.Slice(all, func(i, j int) bool { return all[i].at < all[j].at })
	for _, x := range all {
		x.ev["conc"], x.ev["may"] = true, true
		w.Emit(x.ev)
	}
	in.gate = true
	for k := 0; k < int(back)%200+5; k++ {
		r.call(1, "next", 0, "")
		r.step(1, "ok")
	}
	r.end()
}

func main() {
	flag.Parse()
	w := trace.Open(*out)
	rnd := rand.New(rand.NewSource(*seed*1000003 + 5))
	if *in != "" {
		f, err := os.Open(*in)
		trace.Must(err, "behaviours")
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<26)
		for k := 0; sc.Scan(); k++ {
			var acts []act
			trace.Must(json.Unmarshal(sc.Bytes(), &acts), "behaviour")
			legacyOnly := true
			for _, a := range acts {
				if a.A == "call" && a.Op != "new" && a.Op != "next" && a.Op != "release" {
					legacyOnly = false
				}
			}
			if legacyOnly {
				replay(w, "legacy", acts, k)
			} else {
				replay(w, []string{"string", "hash"}[k%2], acts, k)
			}
		}
	}
	for k := 0; k < 60**size; k++ {
		random(w, rnd, []string{"string", "hash", "legacy"}[k%3], 60)
	}
	for k := 0; k < 4**size; k++ {
		concurrent(w, rnd, []string{"string", "hash", "legacy"}[k%3], 25)
	}
	for k := 0; k < 4**size; k++ {
		returning(w, rnd, []string{"string", "hash"}[k%2], 80)
	}
	w.Close()
}
