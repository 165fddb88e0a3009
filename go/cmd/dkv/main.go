// dkv drives the embedded providers (properties K01..K04).
package main

import (
	"bufio"

	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"
	"time"

	"github.com/zhiqiangxu/mondis"
	"mondisverif/kvx"
	"mondisverif/trace"
)

var (
	prop = flag.String("prop", "", "")
	seed = flag.Int64("seed", 1, "")
	size = flag.Int("size", 1, "scale factor")
	out  = flag.String("out", "", "")
	in   = flag.String("in", "", "behaviours generated from the specification (JSON arrays of operations)")
)

func main() {
	flag.Parse()
	w := trace.Open(*out)
	defer w.Close()
	r := rand.New(rand.NewSource(*seed))
	switch *prop {
	case "K01":
		replay(w, "badger", "leveldb")
		points(w, r)
		ttl(w, r)
	case "K02":
		replay(w, "badger")
		scans(w, r)
		damaged(w, r)
	case "K03":
		replay(w, "badger")
		txns(w, r)
	case "K04":
		reopen(w, r)
		crashPoints(w, r)
		crashLive(w, r)
	default:
		trace.Fatal("unknown property %q", *prop)
	}
}

func behaviours() (bs [][]kvx.Op) {
	if *in == "" {
		return
	}
	f, err := os.Open(*in)
	trace.Must(err, "open behaviours")
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	for sc.Scan() {
		var b []kvx.Op
		trace.Must(json.Unmarshal(sc.Bytes(), &b), "parse behaviour")
		bs = append(bs, b)
	}
	return
}

func replay(w *trace.W, provs ...string) {
	for _, b := range behaviours() {
		for _, p := range provs {
			run(w, p, b)
		}
	}
}

func run(w *trace.W, prov string, ops []kvx.Op) {
	l := kvx.OpenLocal(prov)
	rr := kvx.NewRunner(l, w)
	for _, o := range ops {
		rr.Run(o)
	}
	rr.End()
	if !rr.Dead {
		l.Close()
	}
}

// points: sequences of non-transactional operations against both providers.
func points(w *trace.W, r *rand.Rand) {
	for s := 0; s < 30**size; s++ {
		prov := []string{"badger", "leveldb"}[s%2]
		g := kvx.NewGen(r, prov == "leveldb", 2+r.Intn(6))
		g.AllowEmpty = true
		var ops []kvx.Op
		for i := 0; i < 60; i++ {
			ops = append(ops, g.Point(0))
			if r.Intn(60) == 0 {
				ops = append(ops, kvx.Op{E: "reopen", Mode: "clean"})
			}
			if r.Intn(30) == 0 {
				ops = append(ops, batch(g, r)...)
			}
		}
		run(w, prov, ops)
	}
	// bulk: more keys than fit one table / block
	for _, prov := range []string{"badger", "leveldb"} {
		g := kvx.NewGen(r, true, 1)
		var ops []kvx.Op
		for i := 0; i < 150**size; i++ {
			o := kvx.Op{E: "set", K: []int{7, i / 256, i % 256}, TTL: "none"}
			g.Val(&o)
			ops = append(ops, o)
		}
		ops = append(ops, kvx.Op{E: "reopen", Mode: "clean"})
		for i := 0; i < 150**size; i++ {
			k := []int{7, i / 256, i % 256}
			ops = append(ops, kvx.Op{E: []string{"get", "exists", "delete", "get"}[r.Intn(4)], K: k})
			if i%10 == 0 {
				ops = append(ops, kvx.Op{E: "get", K: k}, kvx.Op{E: "exists", K: append(k, 0)})
			}
		}
		run(w, prov, ops)
	}
}

func batch(g *kvx.Gen, r *rand.Rand) (ops []kvx.Op) {
	ops = append(ops, kvx.Op{E: "wbnew", W: 1})
	for i := r.Intn(7); i >= 0; i-- {
		k := g.Keys[r.Intn(len(g.Keys))]
		if r.Intn(3) == 0 {
			ops = append(ops, kvx.Op{E: "wbdel", W: 1, K: k})
		} else {
			o := kvx.Op{E: "wbset", W: 1, K: k}
			g.Val(&o)
			ops = append(ops, o)
		}
		if r.Intn(3) == 0 {
			ops = append(ops, kvx.Op{E: "get", K: k})
		}
	}
	if r.Intn(5) == 0 {
		ops = append(ops, kvx.Op{E: "wbdiscard", W: 1})
	} else {
		ops = append(ops, kvx.Op{E: "wbcommit", W: 1})
	}
	return
}

// ttl: entries with a short time-to-live vanish, everything else stays.
func ttl(w *trace.W, r *rand.Rand) {
	var wg sync.WaitGroup
	type job struct{ ops []kvx.Op }
	var jobs []job
	for s := 0; s < 3; s++ {
		g := kvx.NewGen(r, false, 6)
		var ops []kvx.Op
		for i := 0; i < 6; i++ {
			ops = append(ops, g.Set(0))
		}
		for i, ttl := range []string{"short", "long", "none", "short"} {
			ops = append(ops, kvx.Op{E: "set", K: []int{90, i}, V: "aa", Meta: true, Tag: i, TTL: ttl})
			if ttl != "short" {
				ops = append(ops, kvx.Op{E: "get", K: []int{90, i}})
			}
		}
		if s == 1 { // a later plain set cancels the ttl
			ops = append(ops, kvx.Op{E: "set", K: []int{90, 0}, V: "bb", TTL: "none"})
		}
		ops = append(ops, kvx.Op{E: "expire"})
		if s == 2 {
			ops = append(ops, kvx.Op{E: "reopen", Mode: "clean"})
		}
		for i := 0; i < 4; i++ {
			ops = append(ops, kvx.Op{E: "get", K: []int{90, i}}, kvx.Op{E: "exists", K: []int{90, i}})
		}
		ops = append(ops, kvx.Op{E: "scan", PfxNil: true})
		jobs = append(jobs, job{ops})
	}
	// the sleeps overlap: each segment is recorded into its own buffer file and appended
	files := make([]string, len(jobs))
	for i := range jobs {
		wg.Add(1)
		files[i] = filepath.Join(trace.Scratch("ttl"), "t.ndjson")
		go func(i int) {
			defer wg.Done()
			ww := trace.Open(files[i])
			run(ww, "badger", jobs[i].ops)
			ww.Close()
		}(i)
	}
	wg.Wait()
	for _, f := range files {
		w.Append(f)
	}
}

// scans: small populations, all scan shapes, inside and outside transactions with pending writes.
func scans(w *trace.W, r *rand.Rand) {
	for s := 0; s < 40**size; s++ {
		prov := "badger"
		if s%4 == 3 {
			prov = "leveldb"
		}
		g := kvx.NewGen(r, prov == "leveldb", 3+r.Intn(9))
		var ops []kvx.Op
		fill := r.Intn(12)
		for i := 0; i < fill; i++ {
			ops = append(ops, g.Set(0))
			if r.Intn(6) == 0 {
				ops = append(ops, kvx.Op{E: "delete", K: g.Key()})
			}
		}
		if r.Intn(3) == 0 {
			ops = append(ops, kvx.Op{E: "reopen", Mode: "clean"})
		}
		for i := 0; i < 12; i++ {
			ops = append(ops, g.Scan(0))
		}
		if prov == "badger" {
			ops = append(ops, kvx.Op{E: "begin", T: 1, Upd: r.Intn(4) > 0})
			upd := ops[len(ops)-1].Upd
			ops = append(ops, g.Set(0), kvx.Op{E: "delete", K: g.Key()})
			for i := 0; i < 16; i++ {
				if upd && r.Intn(2) == 0 {
					if r.Intn(3) == 0 {
						ops = append(ops, kvx.Op{E: "delete", T: 1, K: g.Key()})
					} else {
						ops = append(ops, g.Set(1))
					}
				} else {
					ops = append(ops, g.Scan(1))
				}
			}
			ops = append(ops, kvx.Op{E: "commit", T: 1})
		} else {
			for i := 0; i < 6; i++ {
				ops = append(ops, g.Point(0), g.Scan(0))
			}
		}
		ops = append(ops, g.Scan(0), kvx.Op{E: "scan", PfxNil: true})
		run(w, prov, ops)
	}
	// systematic: every prefix/offset/direction over a fixed dense population
	keys := [][]int{{1}, {1, 0}, {1, 255}, {1, 255, 0}, {2}, {2, 0}, {255}, {255, 0}, {255, 255}}
	points := append([][]int{{0}, {1, 1}, {1, 255, 255}, {1, 255, 255, 255}, {3}, {254, 255}, {255, 255, 255}}, keys...)
	for _, prov := range []string{"badger", "leveldb"} {
		var ops []kvx.Op
		for i, k := range keys {
			ops = append(ops, kvx.Op{E: "set", K: k, V: fmt.Sprintf("%02x", i), TTL: "none"})
		}
		for _, rev := range []bool{false, true} {
			if rev && prov == "leveldb" {
				continue
			}
			for _, p := range append([][]int{{}}, points...) {
				ops = append(ops, kvx.Op{E: "scan", Rev: rev, Prefix: p, PfxNil: true})
				for _, o := range points {
					ops = append(ops, kvx.Op{E: "scan", Rev: rev, Prefix: p, PfxNil: true, HasOff: true, Off: o, Stop: r.Intn(3)})
				}
			}
		}
		run(w, prov, ops)
	}
	// more keys than one iterator prefetch batch
	{
		g := kvx.NewGen(r, true, 1)
		var ops []kvx.Op
		for i := 0; i < 260; i++ {
			o := kvx.Op{E: "set", K: []int{9, i / 128, i % 128}, TTL: "none"}
			g.Val(&o)
			ops = append(ops, o)
		}
		for _, rev := range []bool{false, true} {
			for _, st := range []int{0, 99, 100, 101, 200} {
				ops = append(ops, kvx.Op{E: "scan", Rev: rev, Prefix: []int{9}, Stop: st}, kvx.Op{E: "scan", Rev: rev, PfxNil: true, HasOff: true, Off: []int{9, 1, 0}, Stop: st})
			}
		}
		run(w, "badger", ops)
	}
}

// damaged: tables with bytes that rotted, and stores that are closed: what cannot be shown is not passed over in silence
func damaged(w *trace.W, r *rand.Rand) {
	for s := 0; s < 6**size; s++ {
		l := kvx.OpenLocal("leveldb")
		g := kvx.NewGen(r, true, 4)
		rr := kvx.NewRunner(l, w)
		g.Keys = nil
		for i := 60 + r.Intn(150); i > 0; i-- {
			g.Keys = append(g.Keys, []int{r.Intn(4), r.Intn(256), i % 256})
			b := make([]byte, 40)
			r.Read(b)
			rr.Run(kvx.Op{E: "set", K: g.Keys[len(g.Keys)-1], V: fmt.Sprintf("%x", b), TTL: "none"})
		}
		rr.Run(kvx.Op{E: "reopen", Mode: "clean"}) // moves the journal into a table
		if s%3 > 0 && !rr.Dead {
			trace.Must(l.KV.Close(), "close")
			fs, _ := filepath.Glob(l.Dir + "/*.ldb")
			for _, f := range fs {
				b, err := os.ReadFile(f)
				trace.Must(err, "table")
				b[r.Intn(len(b)*9/10)] ^= byte(1 + r.Intn(255))
				trace.Must(os.WriteFile(f, b, 0644), "table")
			}
			l.KV = kvx.NewKV("leveldb")
			if l.KV.Open(mondis.KVOption{Dir: l.Dir}) != nil {
				rr.Dead = true
			}
		} else if !rr.Dead {
			l.KV.Close()
		}
		rr.As = "damaged"
		for i := 0; i < 10; i++ {
			o := kvx.Op{E: "scan", PfxNil: true}
			if i > 0 {
				o = g.Scan(0)
			}
			rr.Run(o)
			rr.Run(kvx.Op{E: "get", K: g.Key()})
		}
		if !rr.Dead {
			l.Close()
		}
	}
}

// txns: interleavings of transactions, single operations and batches.
func txns(w *trace.W, r *rand.Rand) {
	for s := 0; s < 60**size; s++ {
		g := kvx.NewGen(r, false, 2+r.Intn(4))
		g.AllowEmpty = true
		var ops []kvx.Op
		for i := r.Intn(5); i > 0; i-- {
			ops = append(ops, g.Set(0))
		}
		next := 1
		open := map[int]bool{} // id -> update
		var done []int
		var order []int
		for i := 0; i < 50; i++ {
			switch x := r.Intn(20); {
			case x < 3 && len(order) < 4:
				upd := r.Intn(5) > 0
				ops = append(ops, kvx.Op{E: "begin", T: next, Upd: upd})
				open[next] = upd
				order = append(order, next)
				next++
			case x < 5 && len(order) > 0:
				j := r.Intn(len(order))
				t := order[j]
				order = append(order[:j], order[j+1:]...)
				e := "commit"
				if r.Intn(4) == 0 {
					e = "discard"
				}
				ops = append(ops, kvx.Op{E: e, T: t})
				done = append(done, t)
				if r.Intn(3) == 0 {
					ops = append(ops, kvx.Op{E: "discard", T: t})
				}
				ops = append(ops, kvx.Op{E: "scan", PfxNil: true})
			case x == 5 && len(done) > 0:
				ops = append(ops, g.Point(done[r.Intn(len(done))]))
			case x == 6:
				ops = append(ops, batch(g, r)...)
			case x < 8:
				ops = append(ops, g.Point(0))
			case len(order) > 0:
				t := order[r.Intn(len(order))]
				if r.Intn(6) == 0 {
					ops = append(ops, g.Scan(t))
				} else {
					ops = append(ops, g.Point(t))
				}
			}
		}
		if s%6 == 0 { // a transaction that fills up
			pick := func() []int { return g.Keys[r.Intn(len(g.Keys))] }
			o := kvx.Op{E: "fill", T: next, K: pick(), K2: pick(), V: "c0ffee", Del: s%12 == 0, Meta: r.Intn(2) == 0, Tag: 7}
			ops = append(ops, kvx.Op{E: "begin", T: next, Upd: true}, g.Scan(next), o,
				kvx.Op{E: "get", T: next, K: o.K}, kvx.Op{E: "get", T: next, K: o.K2}, g.Scan(next), kvx.Op{E: "get", K: o.K2})
			order = append(order, next)
		}
		if s%12 == 3 { // a batch larger than a transaction
			pick := func() []int { return g.Keys[r.Intn(len(g.Keys))] }
			ops = append(ops, kvx.Op{E: "wbnew", W: 99}, kvx.Op{E: "wbset", W: 99, K: pick(), V: "0b"},
				kvx.Op{E: "wbdel", W: 99, K: pick()}, kvx.Op{E: "wbfill", W: 99, K: pick(), V: "f111", Del: s%24 == 3},
				kvx.Op{E: "wbset", W: 99, K: pick(), V: "0a"}, kvx.Op{E: "wbdel", W: 99, K: pick()},
				kvx.Op{E: "wbcommit", W: 99}, kvx.Op{E: "scan", PfxNil: true})
		}
		for _, t := range order {
			ops = append(ops, kvx.Op{E: "commit", T: t})
		}
		ops = append(ops, kvx.Op{E: "scan", PfxNil: true})
		run(w, "badger", ops)
	}
}

// reopen: histories with clean reopens and crashes (an image of the open store).
func reopen(w *trace.W, r *rand.Rand) {
	for s := 0; s < 24**size; s++ {
		prov := []string{"badger", "badger", "leveldb"}[s%3]
		lvl := prov == "leveldb"
		g := kvx.NewGen(r, lvl, 3+r.Intn(5))
		var ops []kvx.Op
		t := 0
		for i := 0; i < 8; i++ {
			for j := r.Intn(8); j > 0; j-- {
				ops = append(ops, g.Point(0))
			}
			if r.Intn(2) == 0 {
				ops = append(ops, batch(g, r)...)
			}
			if !lvl {
				t++
				ops = append(ops, kvx.Op{E: "begin", T: t, Upd: true})
				for j := r.Intn(6); j >= 0; j-- {
					ops = append(ops, g.Point(t))
				}
				switch r.Intn(4) {
				case 0:
					ops = append(ops, kvx.Op{E: "discard", T: t})
				case 1: // left open across the crash
				default:
					ops = append(ops, kvx.Op{E: "commit", T: t})
				}
			}
			switch r.Intn(3) {
			case 0:
				ops = append(ops, kvx.Op{E: "reopen", Mode: "crash"}, kvx.Op{E: "scan", PfxNil: true})
			case 1:
				ops = append(ops, kvx.Op{E: "reopen", Mode: "clean"}, kvx.Op{E: "scan", PfxNil: true})
			}
		}
		run(w, prov, ops)
	}
}

// crashPoints: the store's log is cut at every byte position; what opens must hold exactly
// the commits whose bytes were complete, each as a whole.
func crashPoints(w *trace.W, r *rand.Rand) {
	for s := 0; s < 2; s++ {
		prov := []string{"badger", "leveldb"}[s]
		l := kvx.OpenLocal(prov)
		g := kvx.NewGen(r, true, 5)
		type snap struct {
			end int64
			ops []kvx.Op
		}
		pat := map[string]string{"badger": "*.vlog", "leveldb": "*.log"}[prov]
		logFile := func() (string, int64) {
			m, _ := filepath.Glob(filepath.Join(l.Dir, pat))
			if len(m) != 1 {
				trace.Fatal("log files: %v", m)
			}
			fi, err := os.Stat(m[0])
			trace.Must(err, "stat log")
			if fi.Size() > 1<<20 {
				trace.Fatal("log file is preallocated")
			}
			return filepath.Base(m[0]), fi.Size()
		}
		name, end0 := logFile()
		snaps := []snap{{end: end0}}
		mute := trace.Open(filepath.Join(trace.Scratch("mute"), "t"))
		rr := kvx.NewRunner(l, mute)
		for i := 0; i < 6; i++ {
			var ops []kvx.Op
			if prov == "leveldb" || i%3 == 2 {
				ops = append(ops, kvx.Op{E: "wbnew", W: 1})
				for j := 0; j < 3; j++ {
					o := kvx.Op{E: "wbset", W: 1, K: g.Keys[r.Intn(len(g.Keys))], V: fmt.Sprintf("%02x%02xff", i+1, j+1)}
					ops = append(ops, o)
				}
				ops = append(ops, kvx.Op{E: "wbcommit", W: 1})
			} else {
				ops = append(ops, kvx.Op{E: "begin", T: i + 1, Upd: true})
				for j := 0; j < 3; j++ {
					o := kvx.Op{E: "set", T: i + 1, K: g.Keys[r.Intn(len(g.Keys))], V: fmt.Sprintf("%02x%02xff", i+1, j+1), TTL: "none"}
					ops = append(ops, o)
				}
				ops = append(ops, kvx.Op{E: "commit", T: i + 1})
			}
			for _, o := range ops {
				rr.Run(o)
			}
			_, end := logFile()
			snaps = append(snaps, snap{end, ops})
		}
		mute.Close()
		full := trace.Scratch("full")
		os.RemoveAll(full)
		kvx.CopyDir(l.Dir, full)
		last := snaps[len(snaps)-1].end
		step := int64(1)
		if *size == 1 {
			step = 5
		}
		for cut := end0; cut <= last; cut += 1 {
			onBoundary := false
			n := 0
			for i, sn := range snaps {
				if sn.end <= cut {
					n = i
				}
				// around the ends every position is tried
				if cut >= sn.end-2 && cut <= sn.end+2 {
					onBoundary = true
				}
			}
			if !onBoundary && cut%step != 0 {
				continue
			}
			img := trace.Scratch("cut")
			os.RemoveAll(img)
			kvx.CopyDir(full, img)
			os.Remove(img + "/LOCK")
			trace.Must(os.Truncate(filepath.Join(img, name), cut), "truncate")
			// the specification runs the complete commits, then the crash
			w.Reset(trace.Ev{"prov": prov})
			for i := 1; i <= n; i++ {
				for _, o := range snaps[i].ops {
					w.Emit(asEvent(o))
				}
			}
			ll := &kvx.Local{Name: prov, Dir: img, KV: kvx.NewKV(prov)}
			var oerr error
			res, detail := trace.Guard(func() string {
				oerr = ll.KV.Open(mondis.KVOption{Dir: img})
				return kvx.ErrClass(oerr)
			})
			e := trace.Ev{"e": "reopen", "mode": "torn", "cut": cut, "r": res}
			if oerr != nil {
				detail = oerr.Error()
			}
			if detail != "" {
				e["detail"] = detail
			}
			w.Emit(e)
			if res == "ok" {
				r2 := kvx.Resume(ll, w)
				r2.Run(kvx.Op{E: "scan", PfxNil: true})
				r2.Run(kvx.Op{E: "set", K: []int{77}, V: "77", TTL: "none"})
				r2.Run(kvx.Op{E: "reopen", Mode: "clean"})
				r2.Run(kvx.Op{E: "scan", PfxNil: true})
				ll.Close()
			}
			os.RemoveAll(img)
		}
		l.Close()
		os.RemoveAll(full)
	}
}

// asEvent is the event of an operation known to have succeeded.
func asEvent(o kvx.Op) trace.Ev {
	e := trace.Ev{"e": o.E, "r": "ok"}
	switch o.E {
	case "begin":
		e["t"], e["upd"] = o.T, o.Upd
	case "commit":
		e["t"] = o.T
	case "set":
		e["t"], e["k"], e["v"], e["meta"], e["tag"], e["ttl"] = o.T, o.K, o.V, false, 0, "none"
	case "wbset":
		e["w"], e["k"], e["v"] = o.W, o.K, o.V
	default:
		e["w"] = o.W
	}
	return e
}

// crashLive: images taken while writers run; every acknowledged commit is there, every
// other one is there as a whole or not at all.
func crashLive(w *trace.W, r *rand.Rand) {
	for s := 0; s < 3**size; s++ {
		l := kvx.OpenLocal("badger")
		var mu sync.Mutex
		acked := map[int]int{} // writer -> last acknowledged round
		stop := make(chan struct{})
		var wg sync.WaitGroup
		for wr := 1; wr <= 3; wr++ {
			wg.Add(1)
			go func(wr int) {
				defer wg.Done()
				for round := 1; ; round++ {
					select {
					case <-stop:
						return
					default:
					}
					t := l.KV.NewTransaction(true)
					for i := 0; i < 4; i++ {
						t.Set([]byte{byte(wr), byte(i)}, []byte{byte(round >> 8), byte(round)}, nil)
					}
					if err := t.Commit(); err == nil {
						mu.Lock()
						acked[wr] = round
						mu.Unlock()
					}
				}
			}(wr)
		}
		time.Sleep(time.Duration(5+r.Intn(25)) * time.Millisecond)
		// acknowledged before the image starts
		mu.Lock()
		before := map[int]int{}
		for k, v := range acked {
			before[k] = v
		}
		mu.Unlock()
		img := trace.Scratch("img")
		os.RemoveAll(img)
		kvx.CopyDir(l.Dir, img)
		close(stop)
		wg.Wait()
		l.Close()
		os.Remove(img + "/LOCK")
		ll := &kvx.Local{Name: "badger", Dir: img, KV: kvx.NewKV("badger")}
		var detail string
		res, _ := trace.Guard(func() string {
			err := ll.KV.Open(mondis.KVOption{Dir: img})
			if err != nil {
				detail = err.Error()
			}
			return kvx.ErrClass(err)
		})
		got := []trace.Ev{}
		if res == "ok" {
			ll.KV.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
				if len(k) == 2 && len(v) == 2 {
					got = append(got, trace.Ev{"w": int(k[0]), "i": int(k[1]), "round": int(v[0])<<8 | int(v[1])})
				} else {
					got = append(got, trace.Ev{"w": -1, "i": -1, "round": -1})
				}
				return true
			})
			ll.Close()
		}
		w.Reset(trace.Ev{"prov": "badger"})
		e := trace.Ev{"e": "liveimage", "r": res, "got": got, "acked": []int{before[1], before[2], before[3]}, "n": 4}
		if detail != "" {
			e["detail"] = detail
		}
		w.Emit(e)
	}
}
