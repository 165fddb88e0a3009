// dlegacy drives the legacy document database: its index catalogue (L02) and its end (L03).
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/provider"
	"mondisverif/kvx"
	"mondisverif/trace"
)

var (
	prop = flag.String("prop", "", "")
	seed = flag.Int64("seed", 1, "")
	size = flag.Int("size", 1, "scale factor")
	out  = flag.String("out", "", "")
	in   = flag.String("in", "", "behaviours generated from the specification")
	jobs = flag.Int("j", 8, "")
)

func main() {
	flag.Parse()
	var list []func(*trace.W, *rand.Rand)
	add := func(n int, f func(*trace.W, *rand.Rand)) {
		for i := 0; i < n**size; i++ {
			list = append(list, f)
		}
	}
	if *in != "" {
		f, err := os.Open(*in)
		trace.Must(err, "behaviours")
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			var plan []step
			trace.Must(json.Unmarshal(sc.Bytes(), &plan), "behaviour")
			list = append(list, func(w *trace.W, r *rand.Rand) { replay(w, r, plan) })
		}
	}
	switch *prop {
	case "L02":
		add(30, histories)
		add(1, everyFault)
		add(12, together)
	case "L03":
		add(2, everyGate)
		add(12, storm)
		add(8, names)
		add(2, refused)
	default:
		trace.Fatal("unknown property %q", *prop)
	}
	w := trace.Open(*out)
	defer w.Close()
	runAll(w, list)
}

func runAll(w *trace.W, list []func(*trace.W, *rand.Rand)) {
	dir := trace.Scratch("parts")
	parts := make([]string, len(list))
	var mu sync.Mutex
	collect := func() {
		for _, p := range parts {
			if p != "" {
				w.Append(p)
			}
		}
		w.Flush()
	}
	trace.Enough = func() {
		mu.Lock() // never unlocked: the process ends
		trace.Enough = nil
		collect()
	}
	sem := make(chan bool, *jobs)
	var wg sync.WaitGroup
	for i := range list {
		i := i
		sem <- true
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			p := fmt.Sprintf("%s/%d", dir, i)
			pw := trace.Open(p)
			mu.Lock()
			parts[i] = p
			mu.Unlock()
			list[i](pw, rand.New(rand.NewSource(*seed*1000003+int64(i)*7919)))
			pw.Close()
		}()
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	collect()
}

// world is one store with one database on it.
type world struct {
	w    *trace.W
	r    *rand.Rand
	dir  string
	raw  mondis.KVDB
	db   *document.DB
	dead bool

	mu   sync.Mutex
	now  map[uint64]*call // goroutine -> the call it is in
	txg  map[int64]*txst
	slow bool
	acc  bool                      // record accesses
	gate func(c *call, k kvx.Call) // called before every access of a call
	objs map[*document.Collection]int
}

// call is a call of the database under way.
type call struct {
	g      int
	n      int // accesses so far
	failAt int // the access that fails (0: none)
	fault  bool
}
type txst struct {
	other bool
	w     map[string]string // what it writes, other than sequences
}

func goid() uint64 {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	n, _ := strconv.ParseUint(strings.Fields(string(b))[1], 10, 64)
	return n
}

func newWorld(w *trace.W, r *rand.Rand) *world {
	wd := &world{w: w, r: r, dir: trace.Scratch("leg"), now: map[uint64]*call{}, txg: map[int64]*txst{}, objs: map[*document.Collection]int{}}
	wd.raw = provider.NewBadger()
	trace.Must(wd.raw.Open(mondis.KVOption{Dir: wd.dir}), "open store")
	w.Reset(nil)
	wd.boot()
	return wd
}

func (wd *world) boot() {
	wd.objs = map[*document.Collection]int{}
	r, d := trace.Guard(func() string {
		wd.db = document.NewDB(&kvx.Wrap{KVDB: wd.raw, Hook: wd.hook})
		return "ok"
	})
	if r != "ok" {
		wd.emit(trace.Ev{"e": "hung", "op": "open", "r": r, "detail": d})
		wd.dead = true
	}
}

func (wd *world) emit(e trace.Ev) {
	wd.mu.Lock()
	defer wd.mu.Unlock()
	wd.w.Emit(e)
}

func (wd *world) end() {
	if !wd.dead {
		trace.Guard(func() string { wd.db.Close(); return "" })
		wd.raw.Close()
	}
	os.RemoveAll(wd.dir)
}

var seqPrefix = string(document.EncodeMetaSequenceKey(nil, nil))

// hook sees every access of the store by the database. While one commits nothing is recorded.
func (wd *world) hook(k kvx.Call) error {
	if k.After && k.Op == "commit" {
		if wd.slow && rand.Intn(2) == 0 {
			// others run between the commit and what its caller does next
			defer time.Sleep(time.Duration(rand.Int63n(int64(3 * time.Millisecond))))
		}
		defer wd.mu.Unlock() // taken before it
		c := wd.now[goid()]
		if t := wd.txg[k.Txn]; k.Err == nil && t != nil && t.other && c != nil {
			e := trace.Ev{"e": "commit", "g": c.g}
			if wd.acc {
				e["w"] = pairs(t.w)
			}
			wd.w.Emit(e)
		}
		wd.access(c, -1)
		return nil
	}
	wd.mu.Lock()
	c := wd.now[goid()]
	if k.After {
		wd.access(c, -1)
		wd.mu.Unlock()
		return nil
	}
	if k.Op == "set" || k.Op == "delete" {
		t := wd.txg[k.Txn]
		if t == nil {
			t = &txst{w: map[string]string{}}
			wd.txg[k.Txn] = t
		}
		if !strings.HasPrefix(string(k.Key), seqPrefix) {
			t.other = true
			t.w[trace.V(k.Key)] = "-"
			if k.Op == "set" {
				t.w[trace.V(k.Key)] = trace.V(k.Value)
			}
		}
	}
	wd.access(c, 1)
	if c != nil {
		if k.Op != "begin" { // which cannot fail
			c.n++
		}
		if c.n == c.failAt && k.Op != "begin" {
			c.fault = true
			wd.access(c, -1)
			wd.mu.Unlock()
			return kvx.ErrInjected
		}
		if wd.gate != nil {
			wd.mu.Unlock()
			wd.gate(c, k)
			wd.mu.Lock()
		}
	}
	if k.Op != "commit" {
		wd.mu.Unlock()
	}
	return nil
}

func (wd *world) access(c *call, d int) {
	if c != nil && wd.acc {
		wd.w.Emit(trace.Ev{"e": "acc", "g": c.g, "d": d})
	}
}

// do runs one call as g
func (wd *world) do(g, failAt int, ev trace.Ev, f func(e trace.Ev) string) (res string, fault bool) {
	return wd.doc(&call{g: g, failAt: failAt}, ev, f)
}

func (wd *world) doc(c *call, ev trace.Ev, f func(e trace.Ev) string) (res string, fault bool) {
	e := trace.Ev{"e": "call", "g": c.g}
	for k, v := range ev {
		e[k] = v
	}
	wd.emit(e)
	ret := trace.Ev{"e": "ret", "g": c.g}
	r, d := trace.Guard(func() string {
		id := goid()
		wd.mu.Lock()
		wd.now[id] = c
		wd.mu.Unlock()
		defer func() {
			wd.mu.Lock()
			delete(wd.now, id)
			wd.mu.Unlock()
		}()
		return f(ret)
	})
	if r == "hang" || r == "panic" {
		op := ev["op"]
		wd.dead = true
		wd.w.Emit(trace.Ev{"e": "hung", "g": c.g, "op": op, "r": r, "detail": d})
		return r, false
	}
	ret["r"], ret["fault"] = r, c.fault
	wd.emit(ret)
	return r, c.fault
}

func pairs(m map[string]string) [][]string {
	r := [][]string{}
	for k, v := range m {
		r = append(r, []string{k, v})
	}
	return r
}

// class of an error
func class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == document.ErrAlreadyClosed || err == document.ErrAlreadyClosing || strings.Contains(err.Error(), "already clos"):
		return "closed"
	case err == document.ErrIndexNameEmpty || err == document.ErrIndexFieldsEmpty || err == document.ErrEmptyCollectionName || err == document.ErrCollectionNameForbiden:
		return "bad"
	case strings.Contains(err.Error(), "already exists"):
		return "dup"
	}
	return "err"
}
