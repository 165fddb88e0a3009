// dremote drives real clients against a real server (properties R01..R03).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"sync"

	"mondisverif/kvx"
	"mondisverif/trace"
)

var (
	prop = flag.String("prop", "", "")
	seed = flag.Int64("seed", 1, "")
	size = flag.Int("size", 1, "scale factor")
	out  = flag.String("out", "", "")
	in   = flag.String("in", "", "behaviours generated from the specification")
	jobs = flag.Int("j", 8, "")
	only = flag.String("only", "", "one scenario (debugging)")

	serve = flag.Bool("serve", false, "be a server")
	dir   = flag.String("dir", "", "")
	addr  = flag.String("addr", "", "")
)

type scenario func(*trace.W, *rand.Rand)

func main() {
	flag.Parse()
	if *serve {
		beServer()
		return
	}
	var list []scenario
	add := func(n int, name string, f scenario) {
		if *only != "" && *only != name {
			return
		}
		for i := 0; i < n**size; i++ {
			list = append(list, f)
		}
	}
	if *in != "" {
		f, err := os.Open(*in)
		trace.Must(err, "behaviours")
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			var plan []step
			trace.Must(json.Unmarshal(sc.Bytes(), &plan), "behaviour")
			list = append(list, func(w *trace.W, r *rand.Rand) { replay(w, r, plan) })
		}
	}
	switch *prop {
	case "R01":
		add(16, "points", points)
		add(7, "scans", scans)
		add(1, "manyscans", manyscans)
		add(4, "private", private)
		add(1, "expiring", expiring)
	case "R02":
		add(40, "txns", txns)
		add(10, "alike", alike)
		add(8, "pipelined", pipelined)
		add(6, "parallel", parallel)
		add(3, "txscans", txscans)
	case "R03":
		add(40, "breaking", breaking)
		add(12, "nonsense", nonsense)
		add(6, "stopping", stopping)
		add(4, "process", process)
	case "R04":
		add(20, "txns", txns)
		add(5, "alike", alike)
		add(8, "pipelined", pipelined)
		add(3, "parallel", parallel)
		add(20, "breaking", breaking)
		add(8, "nonsense", nonsense)
		add(6, "stopping", stopping)
	case "wire":
		add(150, "wires", wires)
	default:
		trace.Fatal("unknown property %q", *prop)
	}
	w := trace.Open(*out)
	defer w.Close()
	runAll(w, list)
}

func runAll(w *trace.W, list []scenario) {
	parts := make([]string, len(list))
	done := make([]bool, len(list))
	var mu sync.Mutex
	collect := func() {
		for i := range list {
			if parts[i] != "" {
				w.Append(parts[i])
			}
		}
		w.Flush()
	}
	trace.Enough = func() {
		mu.Lock() // never unlocked: the process ends
		trace.Enough = nil
		collect()
	}
	sem := make(chan bool, *jobs)
	var wg sync.WaitGroup
	dir := trace.Scratch("parts")
	for i := range list {
		i := i
		sem <- true
		wg.Add(1)
		go func() {
			defer wg.Done()
			p := fmt.Sprintf("%s/%d", dir, i)
			pw := trace.Open(p)
			mu.Lock()
			parts[i] = p
			mu.Unlock()
			list[i](pw, rand.New(rand.NewSource(*seed*1000003+int64(i)*7919)))
			pw.Close()
			mu.Lock()
			done[i] = true
			mu.Unlock()
			<-sem
		}()
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	collect()
}

// step is one step of a generated behaviour.
type step struct {
	kvx.Op
	LOp string `json:"op"` // of a lost call
}

func replay(w *trace.W, r *rand.Rand, plan []step) {
	wd := newWorld(w, r, 2)
	defer wd.end()
	wd.connect(r.Intn(2) == 0)
	wd.connect(r.Intn(2) == 0)
	ids := map[int]int{}
	for _, s := range plan {
		if wd.run.Dead {
			return
		}
		o := s.Op
		switch o.E {
		case "sync":
			wd.sync(o.C)
		case "begin":
			ids[o.T] = wd.begin(o.C, o.Upd)
		case "break":
			wd.brk(o.C)
			wd.idle()
		case "stop":
			wd.stop()
		case "start":
			wd.start()
		case "idle":
			wd.idle()
		case "lost":
			o.E = s.LOp
			o.T = ids[o.T]
			if x := wd.txs[o.T]; o.T != 0 && (x == nil || !x.first || x.dead) {
				continue
			}
			fill(&o)
			wd.lost(o, o.Mode)
			wd.idle()
		default:
			o.T = ids[o.T]
			fill(&o)
			if o.T != 0 && wd.txs[o.T] == nil {
				continue
			}
			wd.do(o)
		}
	}
	wd.finish()
}

func fill(o *kvx.Op) {
	if o.TTL == "" {
		o.TTL = "none"
	}
	if o.E == "scan" && o.Prefix == nil {
		o.PfxNil = true
	}
}

// finish ends what is open and looks at the store
func (wd *world) finish() {
	if wd.run.Dead {
		return
	}
	if !wd.up {
		wd.start()
	}
	wd.idle()
	for t := 1; t <= wd.nextT; t++ {
		if wd.txs[t] != nil {
			wd.do(kvx.Op{E: []string{"commit", "discard"}[wd.r.Intn(2)], T: t})
		}
	}
	for c := 1; c < len(wd.cl); c++ {
		wd.sync(c)
		wd.do(kvx.Op{E: "scan", C: c, Stop: 1000, PfxNil: true})
	}
	wd.dump()
	wd.idle()
}

// op is a random operation of the generator with remote limits
func (wd *world) op(g *kvx.Gen, t, c int, scanning bool) kvx.Op {
	var o kvx.Op
	if scanning {
		o = g.Scan(t)
		o.Stop = []int{-1, 0, 1, 2, 3, 4, 1000, 1001, 5000}[wd.r.Intn(9)]
		if o.Stop <= 0 && wd.r.Intn(3) > 0 {
			o.Stop = 1000
		}
	} else {
		o = g.Point(t)
	}
	o.C = c
	return o
}

// points: single operations of several clients of both kinds.
func points(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r, 0)
	defer wd.end()
	g := kvx.NewGen(r, false, 2+r.Intn(5))
	g.AllowEmpty = true
	n := wd.connect(false)
	for wd.connect(true); n < 1+r.Intn(3); n++ {
		wd.connect(r.Intn(2) == 0)
	}
	for i := 0; i < 80 && !wd.run.Dead; i++ {
		c := 1 + r.Intn(len(wd.cl)-1)
		wd.do(wd.op(g, 0, c, r.Intn(6) == 0))
		if r.Intn(12) == 0 {
			wd.faulty(wd.op(g, 0, c, r.Intn(3) == 0))
		}
		if r.Intn(40) == 0 { // a large value
			o := kvx.Op{E: "set", C: c, K: g.Key(), VN: 1 << uint(10+r.Intn(11)), V: "x", TTL: "none"}
			wd.do(o)
			wd.do(kvx.Op{E: "get", C: c, K: o.K})
		}
		if r.Intn(10) == 0 {
			wd.dump()
		}
		if r.Intn(50) == 0 {
			wd.stop()
			wd.start()
			for c := 1; c < len(wd.cl); c++ {
				wd.sync(c)
			}
		}
	}
	wd.finish()
}

// scans: populations around and beyond the limits.
func scans(w *trace.W, r *rand.Rand) { scanning(w, r, []int{0, 1, 2, 5, 30, 150, 350}[r.Intn(7)]) }

func manyscans(w *trace.W, r *rand.Rand) { scanning(w, r, []int{999, 1000, 1003}[r.Intn(3)]) }

// txscans: more entries than the store reads ahead, within transactions
func txscans(w *trace.W, r *rand.Rand) { scanning(w, r, 120+r.Intn(200)) }

func scanning(w *trace.W, r *rand.Rand, n int) {
	wd := newWorld(w, r, 0)
	defer wd.end()
	a, b := wd.connect(false), wd.connect(true)
	g := kvx.NewGen(r, false, 4)
	g.Keys = nil
	for i := 0; i < n; i++ {
		k := []int{[]int{7, 255}[i%2], i / 256, i % 256}
		g.Keys = append(g.Keys, k)
		o := kvx.Op{E: "set", C: a, K: k, V: fmt.Sprintf("%04x", i), TTL: "none", Meta: i%3 == 0, Tag: i % 256}
		wd.do(o)
	}
	if n == 0 {
		g.Keys = [][]int{{7, 0, 0}}
	}
	shots := 60
	if n > 900 {
		shots = 10
	}
	tx := []int{0}
	if r.Intn(2) == 0 || *prop == "R02" {
		tx = append(tx, wd.begin(a, false), wd.begin(b, true))
	}
	for i := 0; i < shots && !wd.run.Dead; i++ {
		wd.do(wd.op(g, tx[r.Intn(len(tx))], []int{a, b}[r.Intn(2)], true))
	}
	wd.finish()
}

// expiring: entries with a short time to live.
func expiring(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r, 0)
	defer wd.end()
	a, b := wd.connect(false), wd.connect(true)
	g := kvx.NewGen(r, false, 6)
	for i, k := range g.Keys {
		o := kvx.Op{E: "set", C: []int{a, b}[i%2], K: k, V: "0102", TTL: []string{"none", "short", "long"}[i%3], Meta: true, Tag: i}
		wd.do(o)
		wd.do(kvx.Op{E: "get", C: []int{b, a}[i%2], K: k})
	}
	t := wd.begin(a, true)
	for i, k := range g.Keys {
		o := kvx.Op{E: "set", T: t, K: append(k, i), V: "03", TTL: []string{"none", "short", "long"}[(i+1)%3], Meta: true, Tag: i}
		wd.do(o)
		wd.do(kvx.Op{E: "get", T: t, K: o.K})
	}
	wd.do(kvx.Op{E: "commit", T: t})
	wd.do(kvx.Op{E: "scan", C: a, Stop: 100, PfxNil: true})
	wd.do(kvx.Op{E: "expire"})
	for i, k := range g.Keys {
		wd.do(kvx.Op{E: "get", C: a, K: k})
		wd.do(kvx.Op{E: "exists", C: b, K: append(k, i)})
	}
	wd.finish()
}

// txns: interleaved transactions and single operations of several sessions.
func txns(w *trace.W, r *rand.Rand) {
	cap := 0
	if r.Intn(4) == 0 {
		cap = 1 + r.Intn(3)
	}
	wd := newWorld(w, r, cap)
	defer wd.end()
	g := kvx.NewGen(r, false, 2+r.Intn(4))
	g.AllowEmpty = true
	wd.connect(r.Intn(3) == 0)
	wd.connect(r.Intn(3) == 0)
	var open []int
	for i := 0; i < 90 && !wd.run.Dead; i++ {
		switch x := r.Intn(20); {
		case x < 3 && len(open) < 4:
			open = append(open, wd.begin(1+r.Intn(2), r.Intn(4) > 0))
		case x < 5 && len(open) > 0:
			j := r.Intn(len(open))
			if r.Intn(10) == 0 {
				wd.faulty(kvx.Op{E: "commit", T: open[j]})
			}
			if wd.txs[open[j]] != nil {
				wd.do(kvx.Op{E: []string{"commit", "commit", "discard"}[r.Intn(3)], T: open[j]})
			}
			open = append(open[:j], open[j+1:]...)
			if r.Intn(3) == 0 {
				wd.dump()
			}
		case x < 17 && len(open) > 0:
			o := wd.op(g, open[r.Intn(len(open))], 0, r.Intn(5) == 0)
			if r.Intn(14) == 0 {
				wd.faulty(o)
			} else {
				wd.do(o)
			}
		case x < 19:
			wd.do(wd.op(g, 0, 1+r.Intn(2), r.Intn(6) == 0))
		default:
			wd.idle()
		}
	}
	wd.finish()
}

// alike: many requests of one kind in one transaction, each unlike the one before it.
func alike(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r, 0)
	defer wd.end()
	c := wd.connect(r.Intn(3) == 0)
	g := kvx.NewGen(r, false, 4)
	for _, k := range g.Keys[:2] {
		wd.do(kvx.Op{E: "set", C: c, K: k, V: "aabb", TTL: "long", Meta: true, Tag: 9})
	}
	for n := 0; n < 6 && !wd.run.Dead; n++ {
		t := wd.begin(c, n > 0)
		kind := []string{"set", "get", "exists", "delete", "scan"}[r.Intn(5)]
		for i := 0; i < 12; i++ {
			o := wd.op(g, t, c, kind == "scan")
			for o.E != kind {
				o = wd.op(g, t, c, false)
			}
			wd.do(o)
			if kind == "set" || kind == "delete" {
				wd.do(kvx.Op{E: "get", T: t, K: o.K})
			}
			if r.Intn(8) == 0 {
				kind = []string{"set", "get", "exists", "delete", "scan"}[r.Intn(5)]
			}
		}
		wd.do(kvx.Op{E: "commit", T: t})
		wd.dump()
	}
	wd.finish()
}

// pipelined: clients that do not wait for an answer before they send the next requests.
func pipelined(w *trace.W, r *rand.Rand) {
	cap := 0
	if r.Intn(4) == 0 {
		cap = 2 + r.Intn(4)
	}
	wd := newWorld(w, r, cap)
	defer wd.end()
	g := kvx.NewGen(r, false, 2+r.Intn(4))
	wd.connect(true)
	wd.connect(r.Intn(2) == 0)
	for n := 0; n < 14 && !wd.run.Dead; n++ {
		// the requests of several transactions on one connection, sent at once
		k := 1 + r.Intn(3)
		var ts []int
		ops := map[int][]kvx.Op{}
		for i := 0; i < k; i++ {
			t := wd.begin(1, r.Intn(4) > 0)
			ts = append(ts, t)
			if r.Intn(2) == 0 {
				o := wd.op(g, t, 1, false)
				for !wd.txs[t].upd && writes(o) {
					o = wd.op(g, t, 1, false)
				}
				wd.do(o)
			}
			for j := 1 + r.Intn(10); j > 0; j-- {
				o := wd.op(g, t, 1, r.Intn(4) == 0)
				if len(ops[t]) > 0 && r.Intn(3) == 0 {
					o = kvx.Op{E: "get", T: t, C: 1, K: o.K}
				}
				if o.E == "scan" && o.Stop <= 0 || !wd.txs[t].first && !wd.txs[t].upd && writes(o) {
					continue
				}
				ops[t] = append(ops[t], o)
			}
		}
		commit := k == 1 && len(ops[ts[0]]) > 0 && r.Intn(2) == 0
		began := true
		for _, t := range ts {
			began = began && wd.txs[t].first
		}
		for _, t := range ts {
			if wd.run.Dead || len(ops[t]) == 0 && !wd.txs[t].first {
				continue
			}
			if len(ops[t]) > 0 && !wd.txs[t].first {
				wd.txs[t].first = true
				wd.emit(trace.Ev{"e": "first", "t": t})
			}
			wd.run.Tx(t).(*rawTxn).ahead(ops[t], commit)
		}
		if !commit && began { // all have their snapshots
			wd.do(wd.op(g, 0, 1+r.Intn(2), false)) // while they are on their way
		}
		for left := true; left; {
			left = false
			for _, t := range ts {
				if len(ops[t]) > 0 {
					wd.do(ops[t][0])
					ops[t] = ops[t][1:]
					left = true
				}
			}
		}
		for _, t := range ts {
			e := []string{"commit", "commit", "discard"}[r.Intn(3)]
			if commit {
				e = "commit"
			}
			wd.do(kvx.Op{E: e, T: t})
		}
		if r.Intn(3) == 0 {
			wd.dump()
		}
	}
	wd.finish()
}

// breaking: connections are cut between and around requests, servers stop.
func breaking(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r, 0)
	defer wd.end()
	g := kvx.NewGen(r, false, 2+r.Intn(3))
	n := 2 + r.Intn(2)
	for i := 0; i < n; i++ {
		wd.connect(r.Intn(3) == 0)
	}
	open := func() (ts []int) {
		for t, x := range wd.txs {
			if !x.dead {
				ts = append(ts, t)
			}
		}
		sort.Ints(ts)
		return
	}
	for i := 0; i < 60 && !wd.run.Dead; i++ {
		c := 1 + r.Intn(n)
		ts := open()
		var t int
		if len(ts) > 0 {
			t = ts[r.Intn(len(ts))]
		}
		switch x := r.Intn(30); {
		case x < 5 && len(ts) < 5:
			wd.begin(c, r.Intn(5) > 0)
		case x < 18 && t > 0:
			wd.do(wd.op(g, t, 0, r.Intn(8) == 0))
		case x < 21:
			wd.do(wd.op(g, 0, c, r.Intn(6) == 0))
		case x < 23 && t > 0:
			wd.do(kvx.Op{E: []string{"commit", "commit", "discard"}[r.Intn(3)], T: t})
		case x < 24:
			wd.brk(c)
		case x < 28:
			mode := []string{"before", "mid", "after", "after"}[r.Intn(4)]
			var o kvx.Op
			if t > 0 && r.Intn(4) > 0 {
				if wd.txs[t].first && r.Intn(2) == 0 {
					o = kvx.Op{E: []string{"commit", "discard"}[r.Intn(2)], T: t}
				} else {
					o = g.Point(t)
					if writes(o) && !wd.txs[t].upd {
						o = kvx.Op{E: "get", T: t, K: o.K}
					}
				}
			} else {
				o = g.Point(0)
				o.C = c
			}
			wd.lost(o, mode)
		default:
			wd.idle()
		}
		for c := 1; c <= n; c++ {
			if wd.cl[c].down {
				if r.Intn(2) == 0 {
					wd.idle()
				}
				if r.Intn(2) == 0 {
					wd.abandon()
					wd.sync(c)
				} else {
					wd.sync(c)
					wd.abandon()
				}
				wd.dump()
			}
		}
	}
	wd.finish()
}

// nonsense: a raw client misbehaves while others work.
func nonsense(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r, 0)
	defer wd.end()
	g := kvx.NewGen(r, false, 3)
	bad := wd.connect(true)
	wd.connect(false)
	wd.connect(true)
	good := []int{0, 0}
	for i := range good {
		good[i] = wd.begin(2+i, true)
		wd.do(kvx.Op{E: "set", T: good[i], K: []int{9, i}, V: "01", TTL: "none"})
	}
	for i := 0; i < 14 && !wd.run.Dead; i++ {
		t, inT := 0, (*rawTxn)(nil)
		if r.Intn(3) > 0 {
			t = wd.begin(bad, r.Intn(3) > 0)
			wd.do(kvx.Op{E: "get", T: t, K: g.Key()})
			if wd.txs[t].upd {
				o := g.Set(t)
				o.K = g.Keys[0]
				wd.do(o)
			}
			inT, _ = wd.run.Tx(t).(*rawTxn)
			if inT == nil || wd.run.Dead {
				break
			}
		}
		lenient := wd.cl[bad].s.(*rawSession).malformed(inT, r.Intn(12), r.Intn(1000))
		wd.emit(trace.Ev{"e": "malformed", "c": bad, "t": t, "lenient": lenient})
		if t > 0 && !lenient && r.Intn(2) == 0 {
			wd.do(kvx.Op{E: "get", T: t, K: g.Keys[0]})
		}
		for j := 0; j < 2; j++ {
			wd.do(wd.op(g, good[j], 0, r.Intn(4) == 0))
			wd.do(wd.op(g, 0, 2+j, r.Intn(4) == 0))
		}
		wd.brk(bad)
		wd.abandon()
		if r.Intn(2) == 0 {
			wd.idle()
		}
		wd.sync(bad)
		wd.do(wd.op(g, 0, bad, false))
		if r.Intn(3) == 0 {
			j := r.Intn(2)
			wd.do(kvx.Op{E: "commit", T: good[j]})
			good[j] = wd.begin(2+j, true)
			wd.dump()
		}
	}
	wd.finish()
}

// stopping: the server goes away under its clients and comes back.
func stopping(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r, 0)
	defer wd.end()
	g := kvx.NewGen(r, false, 3)
	wd.connect(false)
	wd.connect(r.Intn(2) == 0)
	for n := 0; n < 3 && !wd.run.Dead; n++ {
		for i := 0; i < 3; i++ {
			t := wd.begin(1+r.Intn(2), r.Intn(4) > 0)
			for j := r.Intn(4); j > 0; j-- {
				wd.do(wd.op(g, t, 0, r.Intn(8) == 0))
			}
			if r.Intn(4) == 0 {
				wd.do(kvx.Op{E: "commit", T: t})
			}
		}
		wd.do(wd.op(g, 0, 1, false))
		wd.stop()
		for c := 1; c <= 2; c++ {
			for i := 0; i < 3; i++ {
				wd.do(wd.op(g, 0, c, i == 2))
			}
			// transactions begun while there is no server
			t := wd.begin(c, true)
			wd.do(kvx.Op{E: "get", T: t, K: g.Keys[0]})
			wd.do(kvx.Op{E: "commit", T: t})
		}
		wd.abandon()
		wd.start()
		for c := 1; c <= 2; c++ {
			wd.sync(c)
		}
		wd.dump()
	}
	wd.finish()
}
