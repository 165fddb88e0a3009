// dhelpers drives the transaction helpers (U01): functions that succeed, fail, panic or do not fit,
// transactions of any capacity and failing commits, on a real store.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"sync"

	"github.com/dgraph-io/badger"
	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	dtxn "github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/mondis/util"
	"mondisverif/trace"
)

var (
	_    = flag.String("prop", "", "")
	seed = flag.Int64("seed", 1, "")
	size = flag.Int("size", 1, "scale factor")
	out  = flag.String("out", "", "")
	in   = flag.String("in", "", "behaviours generated from the specification")
)

var (
	// nothing may be made of what an error is
	errFs      = []error{errors.New("f fails"), kv.ErrKeyNotFound, io.EOF, dtxn.ErrDDLConflict}
	errCommits = []error{errors.New("commit fails"), context.Canceled, dml.ErrDocNotFound, badger.ErrConflict}
	errPanic   = errors.New("f panics")
)

// item is one thing the caller does.
type item struct {
	H   string `json:"h"`
	F   string `json:"f"`
	C   int    `json:"c"` // the commit that fails (0: none)
	CB  int    `json:"cb"`
	N   int    `json:"n"`
	Cap int    `json:"cap"`
}

// world is a store, its recorder and the state of the caller. The helpers run in the calling goroutine.
type world struct {
	mondis.KVDB // the store itself
	w           *trace.W
	db          *dml.DB
	it          item
	off         bool // what happens now is not the helper's doing
	nt          int
	commits     int
	steps       int
	big         bool // steps with keys so long that few fit into a transaction of the store
	runs        int  // of the function given, in the call under way
	hung        bool
}

type tx struct {
	mondis.ProviderTxn
	x    *world
	id   int
	sets int
}

func (x *world) emit(e trace.Ev) {
	if !x.off {
		x.w.Emit(e)
	}
}

func (x *world) NewTransaction(upd bool) mondis.ProviderTxn {
	x.nt++
	x.emit(trace.Ev{"e": "begin", "t": x.nt, "upd": upd})
	return &tx{ProviderTxn: x.KVDB.NewTransaction(upd), x: x, id: x.nt}
}

func (t *tx) Set(k, v []byte, m *mondis.VMetaReq) error {
	if !t.x.big {
		if t.sets >= t.x.it.Cap {
			return kv.ErrTxnTooBig
		}
	}
	t.sets++
	return t.ProviderTxn.Set(k, v, m)
}

func (t *tx) Commit() (err error) {
	t.x.commits++
	if t.x.commits == t.x.it.C {
		err = errCommits[t.x.nt%len(errCommits)]
		if t.x.it.CB == 3 {
			err = kv.ErrTxnTooBig // an error like any other here
		}
		t.ProviderTxn.Discard()
	} else {
		err = t.ProviderTxn.Commit()
	}
	t.x.emit(trace.Ev{"e": "commit", "t": t.id, "r": name(err)})
	return
}

func (t *tx) Discard() {
	t.ProviderTxn.Discard()
	t.x.emit(trace.Ev{"e": "discard", "t": t.id})
}

func name(err error) string {
	switch err {
	case nil:
		return "ok"
	case kv.ErrTxnTooBig:
		return "toobig"
	}
	for _, e := range errFs {
		if err == e {
			return "err"
		}
	}
	for _, e := range errCommits {
		if err == e {
			return "cerr"
		}
	}
	return "other: " + err.Error()
}

func id(p mondis.ProviderTxn) int {
	if t, ok := p.(*tx); ok {
		return t.id
	}
	return -1
}

// step appends one step to the log in the store.
func (x *world) step(p mondis.ProviderTxn) (err error) {
	if x.big {
		k := fmt.Sprintf("s%08d%s", x.steps+1, strings.Repeat("x", 64000))
		err = p.Set([]byte(k), nil, nil)
	} else {
		var v []byte
		v, _, err = p.Get([]byte("log"))
		if err != nil && err != kv.ErrKeyNotFound {
			return
		}
		err = p.Set([]byte("log"), append(v, []byte(strconv.Itoa(x.steps+1)+" ")...), nil)
	}
	if err == nil {
		x.steps++
	}
	return
}

// content reads the log.
func (x *world) content() {
	steps := []int{}
	if x.big {
		trace.Must(x.KVDB.Scan(mondis.ProviderScanOption{Prefix: []byte("s")}, func(k, v []byte, _ mondis.VMetaResp) bool {
			n, err := strconv.Atoi(string(k[1:9]))
			trace.Must(err, "step")
			steps = append(steps, n)
			return true
		}), "scan")
	} else {
		v, _, err := x.KVDB.Get([]byte("log"))
		if err != kv.ErrKeyNotFound {
			trace.Must(err, "log")
		}
		for _, s := range strings.Fields(string(v)) {
			n, err := strconv.Atoi(s)
			trace.Must(err, "step")
			steps = append(steps, n)
		}
	}
	x.w.Emit(trace.Ev{"e": "content", "steps": steps})
}

// f returns the function under a helper: it makes up to left steps, as many as fit, and then ends in the scripted way.
func (x *world) f(left *int, how string, last *mondis.ProviderTxn) func(mondis.ProviderTxn) error {
	return func(p mondis.ProviderTxn) (err error) {
		if x.runs++; x.runs > 1100 {
			panic("run too often")
		}
		from := x.steps
		*last = p
		r := "panic"
		defer func() {
			w := []int{}
			for i := from + 1; i <= x.steps; i++ {
				w = append(w, i)
			}
			x.w.Emit(trace.Ev{"e": "f", "t": id(p), "r": r, "w": w})
		}()
		for *left > 0 && err == nil {
			if err = x.step(p); err == nil {
				*left--
			}
		}
		if err == nil {
			switch how {
			case "err":
				err = errFs[x.nt%len(errFs)]
			case "toobig":
				err = kv.ErrTxnTooBig
			case "panic":
				panic(errPanic)
			}
		}
		r = name(err)
		return
	}
}

// read is what f does in a read-only transaction.
func (x *world) read(how string) func(mondis.ProviderTxn) error {
	return func(p mondis.ProviderTxn) (err error) {
		r := "panic"
		defer func() { x.w.Emit(trace.Ev{"e": "f", "t": id(p), "r": r, "w": []int{}}) }()
		_, _, err = p.Get([]byte("log"))
		if err == kv.ErrKeyNotFound {
			err = nil
		}
		switch how {
		case "err":
			err = errFs[x.nt%len(errFs)]
		case "toobig":
			err = kv.ErrTxnTooBig
		case "panic":
			panic(errPanic)
		}
		r = name(err)
		return
	}
}

// call runs a helper and names what came of it.
func call(f func() error) (r string) {
	defer func() {
		if p := recover(); p != nil {
			r = "panic"
			if p != error(errPanic) {
				r = fmt.Sprintf("another panic: %v", p)
			}
		}
	}()
	return name(f())
}

// guarded also notices a helper that does not come back.
func (x *world) guarded(f func() error) string {
	var r string
	x.runs = 0
	g, _ := trace.Guard(func() string { r = call(f); return "" })
	if g == "hang" {
		x.hung = true
		return g
	}
	return r
}

type caller struct {
	x    *world
	held mondis.ProviderTxn
}

func (c *caller) hold() {
	c.x.off = true
	c.held = c.x.NewTransaction(true)
	c.x.off = false
	c.x.w.Emit(trace.Ev{"e": "hold", "t": id(c.held)})
}

func (c *caller) release(commit bool) {
	x := c.x
	x.off = true
	r := "err"
	if commit {
		it := x.it
		x.it.C = 0
		r = name(c.held.Commit())
		x.it = it
	} else {
		c.held.Discard()
	}
	x.off = false
	x.w.Emit(trace.Ev{"e": "release", "t": id(c.held), "r": r})
	c.held = nil
}

// try runs the helper for what may be too big once; it reports whether the work can go on.
func (c *caller) try(steps int, how string) bool {
	x := c.x
	if c.held == nil {
		c.hold()
	}
	x.w.Emit(trace.Ev{"e": "start", "h": "try", "t": id(c.held), "cbs": []int{}})
	last := c.held
	var final mondis.ProviderTxn
	f := x.f(&steps, how, &last)
	r := x.guarded(func() (err error) {
		final, err = util.TryCommitWhenTxnTooBig(x, c.held, f)
		return
	})
	if final == nil {
		final = last
	}
	x.w.Emit(trace.Ev{"e": "done", "r": r, "t": id(final)})
	c.held = final
	if x.hung {
		return false
	}
	if r != "ok" {
		c.release(false)
		return false
	}
	return true
}

func (c *caller) item(rnd *rand.Rand, it item) {
	x := c.x
	x.it, x.commits = it, 0
	if it.H != "try" && it.H != "work" && it.C > 0 {
		x.it.C = 1
	}
	if c.held != nil && (it.H != "try" || rnd.Intn(3) == 0) && rnd.Intn(4) > 0 {
		c.release(rnd.Intn(4) > 0)
		x.content()
	}
	switch it.H {
	case "try":
		c.try(it.N, it.F)
	case "work":
		ok := true
		for i := 0; i < it.N && ok; i++ {
			how := "ok"
			if i == it.N-1 {
				how = it.F
			}
			ok = c.try(1+rnd.Intn(3), how)
		}
		if ok && c.held != nil {
			c.release(true)
		}
	default:
		c.one(it)
	}
	if !x.hung {
		x.content()
	}
}

// one runs one of the helpers that make a transaction of their own.
func (c *caller) one(it item) {
	x := c.x
	cbs := []int{}
	called := func(n int) func() { return func() { x.w.Emit(trace.Ev{"e": "called", "n": n}) } }
	switch it.H {
	case "cancel":
		cbs = append(cbs, 1)
	case "callback":
		if it.CB > 0 {
			cbs = append(cbs, 1)
		}
	case "docupdate":
		for i := 1; i <= it.CB; i++ {
			cbs = append(cbs, i)
		}
	}
	x.w.Emit(trace.Ev{"e": "start", "h": it.H, "t": 0, "cbs": cbs})
	n := it.N
	var last mondis.ProviderTxn
	f := x.f(&n, it.F, &last)
	r := x.guarded(func() error {
		switch it.H {
		case "update":
			return util.RunInNewUpdateTxn(x, f)
		case "cancel":
			return util.RunInNewUpdateTxnWithCancel(x, f, called(1))
		case "callback":
			if it.CB == 0 {
				return util.RunInNewUpdateTxnWithCallback(x, f, nil)
			}
			return util.RunInNewUpdateTxnWithCallback(x, f, called(1))
		case "view":
			return util.RunInNewTxn(x, x.read(it.F))
		case "docupdate":
			return x.db.RunInNewUpdateTxn(func(t *dtxn.Txn) error {
				for _, n := range cbs {
					t.AddCancelFunc(called(n))
				}
				return f(t.ProviderTxn)
			})
		case "docview":
			return x.db.RunInNewTxn(func(t *dtxn.Txn) error { return x.read(it.F)(t.ProviderTxn) })
		}
		trace.Fatal("unknown helper %q", it.H)
		return nil
	})
	x.w.Emit(trace.Ev{"e": "done", "r": r, "t": 0})
}

// program runs a list of items on a store of its own.
func program(w *trace.W, rnd *rand.Rand, big bool, items []item) {
	dir := trace.Scratch("h")
	defer os.RemoveAll(dir)
	db := provider.NewBadger()
	trace.Must(db.Open(mondis.KVOption{Dir: dir}), "open")
	defer db.Close()
	x := &world{KVDB: db, w: w, big: big}
	h := schema.NewHandle()
	trace.Must(h.Update(context.Background(), schema.NewMetaCache(1, []*model.DBInfo{{ID: 1, Name: "db", Collections: map[string]*model.CollectionInfo{}}})), "schema")
	var err error
	x.db, err = dml.NewDB("db", x, h)
	trace.Must(err, "db")
	w.Reset(trace.Ev{"big": big})
	c := &caller{x: x}
	for _, it := range items {
		if c.item(rnd, it); x.hung {
			return
		}
	}
	if c.held != nil {
		c.release(true)
	}
	x.content()
}

func random(rnd *rand.Rand) (items []item) {
	caps := []int{0, 1, 2, 3, 5, 8, 1000}
	hs := []string{"update", "cancel", "callback", "view", "docupdate", "docview", "try", "work", "work"}
	fs := []string{"ok", "ok", "ok", "ok", "err", "panic", "toobig"}
	for i := 0; i < 25; i++ {
		it := item{H: hs[rnd.Intn(len(hs))], F: fs[rnd.Intn(len(fs))], CB: rnd.Intn(4), N: rnd.Intn(12), Cap: caps[rnd.Intn(len(caps))]}
		if rnd.Intn(4) == 0 {
			it.C = 1 + rnd.Intn(6)
		}
		items = append(items, it)
	}
	return
}

func main() {
	flag.Parse()
	var list []func(*trace.W, *rand.Rand)
	if *in != "" {
		f, err := os.Open(*in)
		trace.Must(err, "behaviours")
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			var plan []item
			trace.Must(json.Unmarshal(sc.Bytes(), &plan), "behaviour")
			list = append(list, func(w *trace.W, r *rand.Rand) { program(w, r, false, plan) })
		}
	}
	for i := 0; i < 40**size; i++ {
		list = append(list, func(w *trace.W, r *rand.Rand) { program(w, r, false, random(r)) })
	}
	for i := 0; i < 4**size; i++ {
		list = append(list, func(w *trace.W, r *rand.Rand) {
			// what fits is decided by the store itself: some 150 steps
			items := []item{{H: "work", F: "ok", N: 90 + r.Intn(120)}, {H: "try", F: "ok", N: 100 + r.Intn(300)}, {H: "update", F: "ok", N: 170}, {H: "work", F: "ok", N: 120, C: 1 + r.Intn(2)}}
			program(w, r, true, items)
		})
	}
	w := trace.Open(*out)
	defer w.Close()
	dir := trace.Scratch("parts")
	parts := make([]string, len(list))
	var mu sync.Mutex
	collect := func() {
		for _, p := range parts {
			if p != "" {
				w.Append(p)
			}
		}
		w.Flush()
	}
	trace.Enough = func() {
		mu.Lock() // never unlocked: the process ends
		trace.Enough = nil
		collect()
	}
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i := range list {
		i := i
		sem <- true
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { <-sem }()
			p := fmt.Sprintf("%s/%d", dir, i)
			pw := trace.Open(p)
			mu.Lock()
			parts[i] = p
			mu.Unlock()
			list[i](pw, rand.New(rand.NewSource(*seed*1000003+int64(i)*7919)))
			pw.Close()
		}()
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()
	collect()
}
