package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"go.mongodb.org/mongo-driver/bson"
	"mondisverif/kvx"
	"mondisverif/trace"
)

// lop is an operation of a collection; wrote: its success means that it has written something
type lop struct {
	name string
	run  func(co *document.Collection, did int64, t mondis.ProviderTxn) (err error, wrote bool)
}

func ans(err error) string { // answers about documents are no errors
	if err == document.ErrDocNotFound || err == document.ErrDocIDExists || err != nil && class(err) == "dup" {
		return "ok"
	}
	return class(err)
}

var lops = []lop{
	{"insert", func(co *document.Collection, did int64, t mondis.ProviderTxn) (error, bool) {
		_, err := co.InsertOne(bson.M{"v": did}, t)
		return err, true
	}},
	{"managed", func(co *document.Collection, did int64, t mondis.ProviderTxn) (error, bool) {
		err := co.InsertOneManaged(did, bson.M{"v": did}, t)
		return err, err == nil
	}},
	{"update", func(co *document.Collection, did int64, t mondis.ProviderTxn) (error, bool) {
		ex, err := co.UpdateOne(did, bson.M{"v": -did}, t)
		return err, ex
	}},
	{"upsert", func(co *document.Collection, did int64, t mondis.ProviderTxn) (error, bool) {
		_, err := co.UpsertOne(did, bson.M{"v": did, "w": "x"}, t)
		return err, true
	}},
	{"delete", func(co *document.Collection, did int64, t mondis.ProviderTxn) (error, bool) {
		return co.DeleteOne(did, t), false
	}},
	{"get", func(co *document.Collection, did int64, t mondis.ProviderTxn) (error, bool) {
		_, err := co.GetOne(did, t)
		return err, false
	}},
	{"many", func(co *document.Collection, did int64, t mondis.ProviderTxn) (error, bool) {
		_, err := co.GetMany([]int64{did, did}, t)
		return err, false
	}},
	{"count", func(co *document.Collection, did int64, t mondis.ProviderTxn) (error, bool) {
		_, err := co.Count(t)
		return err, false
	}},
	{"all", func(co *document.Collection, did int64, t mondis.ProviderTxn) (error, bool) {
		n, err := co.DeleteAll(t)
		return err, n > 0
	}},
	{"create", func(co *document.Collection, did int64, t mondis.ProviderTxn) (error, bool) {
		_, err := co.CreateIndex(document.IndexDefinition{Name: fmt.Sprintf("i%d", did%3), Fields: []document.IndexField{{Name: fmt.Sprintf("f%d", did%3)}}})
		return err, err == nil
	}},
	{"drop", func(co *document.Collection, did int64, t mondis.ProviderTxn) (error, bool) {
		ex, err := co.DropIndex(fmt.Sprintf("i%d", did%3))
		return err, ex
	}},
}

func noTxn(op string) bool { return op == "create" || op == "drop" }

// op runs one operation as g; in a transaction of the caller's that is discarded afterwards if own is false.
func (wd *world) op(c *call, o lop, co *document.Collection, did int64, own bool) string {
	if wd.dead {
		return ""
	}
	var t mondis.ProviderTxn
	if !own { // begun by the caller
		t = (&kvx.Wrap{KVDB: wd.raw, Hook: wd.hook}).NewTransaction(true)
		defer t.Discard()
	}
	r, _ := wd.doc(c, trace.Ev{"op": o.name, "own": own, "name": "", "bad": false, "long": false}, func(e trace.Ev) string {
		err, wrote := o.run(co, did, t)
		e["wrote"] = own && wrote && err == nil
		return ans(err)
	})
	return r
}

// get asks for a collection as g
func (wd *world) get(c *call, name string) (co *document.Collection) {
	if wd.dead {
		return
	}
	bad := name == "" || name == "collection" || name == "index"
	wd.doc(c, trace.Ev{"op": "coll", "own": true, "name": sig(name), "bad": bad, "long": len(name) > 60000}, func(e trace.Ev) string {
		x, err := wd.db.Collection(name)
		e["wrote"], e["obj"] = false, 0
		if err == nil {
			co = x
			wd.mu.Lock()
			if wd.objs[x] == 0 {
				wd.objs[x] = len(wd.objs) + 1
			}
			e["obj"] = wd.objs[x]
			wd.mu.Unlock()
		}
		return class(err)
	})
	return
}

func (wd *world) close(g int) {
	wd.emit(trace.Ev{"e": "closecall", "g": g})
	r, d := trace.Guard(func() string { wd.db.Close(); return "ok" })
	if r != "ok" {
		wd.dead = true
		wd.w.Emit(trace.Ev{"e": "hung", "g": g, "op": "close", "r": r, "detail": d})
		return
	}
	wd.emit(trace.Ev{"e": "closeret", "g": g})
}

// image: what the store has now; with hard it is closed and opened again first
func (wd *world) image(hard bool) {
	if wd.dead {
		return
	}
	if hard {
		r, _ := trace.Guard(func() string {
			trace.Must(wd.raw.Close(), "close store")
			trace.Must(wd.raw.Open(mondis.KVOption{Dir: wd.dir}), "open store")
			return "ok"
		})
		if r != "ok" {
			trace.Fatal("reopen store")
		}
	}
	m := map[string]string{}
	trace.Must(wd.raw.Scan(mondis.ProviderScanOption{}, func(k, v []byte, _ mondis.VMetaResp) bool {
		if !strings.HasPrefix(string(k), seqPrefix) {
			m[trace.V(k)] = trace.V(v)
		}
		return true
	}), "image")
	wd.emit(trace.Ev{"e": "image", "w": pairs(m)})
}

func (wd *world) again() {
	if wd.dead {
		return
	}
	wd.emit(trace.Ev{"e": "boot"})
	wd.boot()
}

// refuses: every operation is refused after Close, also again
func (wd *world) refuses(co *document.Collection) {
	if co == nil {
		return
	}
	for i := 0; i < 2; i++ {
		for _, o := range lops {
			wd.op(&call{g: 9}, o, co, 1, true)
			if !noTxn(o.name) {
				wd.op(&call{g: 9}, o, co, 1, false)
			}
		}
		wd.get(&call{g: 9}, "c")
		wd.get(&call{g: 9}, "another")
		wd.get(&call{g: 9}, "index")
		wd.close(9)
	}
}

// everyGate: each operation is held at each of its accesses while Close is called.
func everyGate(w *trace.W, r *rand.Rand) {
	type variant struct {
		o    lop
		own  bool
		name string
	}
	var vs []variant
	for _, o := range lops {
		vs = append(vs, variant{o, true, ""})
		if !noTxn(o.name) {
			vs = append(vs, variant{o, false, ""})
		}
	}
	vs = append(vs, variant{name: "new"}, variant{name: "c\x00"})
	r.Shuffle(len(vs), func(i, j int) { vs[i], vs[j] = vs[j], vs[i] })
	wd := newWorld(w, r)
	defer wd.end()
	wd.acc = true
	full := r.Intn(2) == 0 // with leases to be taken during the operation, or not
	for _, v := range vs {
		for n := 1; n < 30 && !wd.dead; n++ {
			co := wd.get(&call{g: 1}, "c")
			if co == nil {
				break
			}
			if full {
				wd.op(&call{g: 1}, lops[0], co, 5, true)
			}
			wd.op(&call{g: 1}, lops[3], co, 5, true)
			if v.o.name == "drop" {
				wd.op(&call{g: 1}, lops[9], co, 5, true)
			} else {
				wd.op(&call{g: 1}, lops[10], co, 5, true)
			}
			name := v.name
			if name != "" {
				name += fmt.Sprint(n)
			}
			at, goon := make(chan bool, 1), make(chan bool)
			hit := 0
			wd.gate = func(c *call, k kvx.Call) {
				if c.g != 2 {
					return
				}
				hit++
				if hit == n {
					at <- true
					<-goon
				}
			}
			var wg sync.WaitGroup
			wg.Add(1)
			done := make(chan bool)
			go func() {
				defer wg.Done()
				defer close(done)
				if name != "" {
					wd.get(&call{g: 2}, name)
				} else {
					wd.op(&call{g: 2}, v.o, co, 5, v.own)
				}
			}()
			reached := false
			select {
			case <-at:
				reached = true
			case <-done:
			}
			if reached {
				for g := 3; g <= 4; g++ { // Close from two
					g := g
					wg.Add(1)
					go func() { defer wg.Done(); wd.close(g) }()
				}
				time.Sleep(12 * time.Millisecond)
				if n == 1 {
					wd.op(&call{g: 1}, lops[r.Intn(len(lops))], co, 5, true) // refused or done, but answered
				}
			}
			close(goon)
			wg.Wait()
			wd.gate = nil
			if !reached {
				break
			}
			wd.close(1)
			wd.op(&call{g: 1}, lops[r.Intn(len(lops))], co, 5, true)
			wd.get(&call{g: 1}, "c")
			if n%3 == 1 {
				wd.image(false)
			}
			wd.again()
		}
	}
	wd.image(true)
	if co := wd.get(&call{g: 1}, "c"); co != nil {
		wd.close(1)
		wd.refuses(co)
		wd.image(false)
	}
}

// storm: many callers, closed at any time by several.
func storm(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r)
	defer wd.end()
	wd.acc = true
	for round := 0; round < 3 && !wd.dead; round++ {
		var wg sync.WaitGroup
		after := int32(r.Intn(60)) // Close is called after this many accesses or so
		slow := r.Intn(3) > 0
		var mu sync.Mutex
		seen := int32(0)
		start := make(chan bool)
		var once sync.Once
		wd.gate = func(c *call, k kvx.Call) {
			mu.Lock()
			seen++
			s := seen
			mu.Unlock()
			if s >= after {
				once.Do(func() { close(start) })
			}
			if slow && s%3 == 0 {
				time.Sleep(time.Duration(s%5) * 300 * time.Microsecond)
			}
		}
		for g := 1; g <= 5; g++ {
			g, lr := g, rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				var have []*document.Collection
				closed := 0
				for i := 0; i < 40 && closed < 3 && !wd.dead; i++ {
					c := &call{g: g}
					if lr.Intn(12) == 0 {
						c.failAt = 1 + lr.Intn(8)
					}
					if len(have) == 0 || lr.Intn(6) == 0 {
						if co := wd.get(c, []string{"c", "c\x00", "d", "", "index"}[lr.Intn(5)]); co != nil {
							have = append(have, co)
						} else {
							closed++
						}
						continue
					}
					co := have[lr.Intn(len(have))]
					if wd.op(c, lops[lr.Intn(len(lops))], co, int64(lr.Intn(6)), lr.Intn(4) > 0) == "closed" {
						closed++
					}
					if lr.Intn(10) == 0 {
						co.GetIndexes()
					}
				}
			}()
		}
		for g := 6; g < 6+1+r.Intn(3); g++ {
			g := g
			late := time.Duration(r.Intn(3)) * time.Millisecond
			wg.Add(1)
			go func() {
				defer wg.Done()
				select {
				case <-start:
				case <-time.After(300 * time.Millisecond):
				}
				time.Sleep(late)
				wd.close(g)
			}()
		}
		wg.Wait()
		wd.gate = nil
		if wd.dead {
			return
		}
		wd.close(1)
		wd.image(r.Intn(4) == 0)
		wd.again()
	}
}

// names: many callers ask for collections at once; every name is one collection of its own, also later.
func names(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r)
	defer wd.end()
	wd.acc = true
	ns := []string{"a", "b", "a\x00", "A", "Index", "collections", "\xff", strings.Repeat("long", 300), strings.Repeat("long", 300) + "x", "index ", "ä", "a/b", "1", "01",
		strings.Repeat("z", 70000)}
	put := func(c *call, n string, co *document.Collection) {
		wd.doc(c, trace.Ev{"op": "put", "own": true, "name": sig(n), "bad": false, "long": false}, func(e trace.Ev) string {
			_, err := co.UpsertOne(7, bson.M{"v": sig(n)}, nil)
			e["wrote"] = err == nil
			return class(err)
		})
	}
	see := func() {
		for _, n := range ns[:len(ns)-1] {
			if wd.dead {
				return
			}
			co := wd.get(&call{g: 1}, n)
			if co == nil {
				continue
			}
			ev := trace.Ev{"e": "see", "name": sig(n), "v": "", "n": 0}
			r, d := trace.Guard(func() string {
				m, err := co.GetOne(7, nil)
				if err == document.ErrDocNotFound {
					return "none"
				}
				if err != nil {
					return "err"
				}
				ev["v"] = fmt.Sprint(m["v"])
				ev["n"], err = co.Count(nil)
				return class(err)
			})
			wd.shown(ev, r, d)
		}
	}
	for round := 0; round < 3 && !wd.dead; round++ {
		var wg sync.WaitGroup
		for g := 1; g <= 8; g++ {
			g, lr := g, rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 12 && !wd.dead; i++ {
					n := ns[lr.Intn(len(ns))]
					c := &call{g: g}
					if lr.Intn(6) == 0 {
						c.failAt = 1 + lr.Intn(7)
					}
					if co := wd.get(c, n); co != nil && lr.Intn(2) == 0 {
						put(&call{g: g}, n, co)
					}
				}
			}()
		}
		wg.Wait()
		see()
		if r.Intn(3) > 0 {
			wd.close(1)
		}
		wd.again()
		see()
	}
}

// refused: asking for a collection fails at each access; asking again works.
func refused(w *trace.W, r *rand.Rand) {
	for n := 1; n < 40; n++ {
		wd := newWorld(w, r)
		wd.acc = true
		if r.Intn(2) == 0 {
			co := wd.get(&call{g: 1}, "other")
			if co != nil {
				wd.op(&call{g: 1}, lops[0], co, 1, true)
			}
		}
		c := &call{g: 1, failAt: n}
		wd.get(c, "c")
		for i := 0; i < 2; i++ {
			if co := wd.get(&call{g: 1}, "c"); co != nil {
				wd.op(&call{g: 1}, lops[0], co, 1, true)
				wd.op(&call{g: 1}, lops[9], co, 1, true)
			}
			wd.get(&call{g: 1}, "other")
		}
		wd.close(1)
		wd.image(false)
		wd.again()
		wd.get(&call{g: 1}, "other")
		wd.get(&call{g: 1}, "c")
		wd.end()
		if !c.fault {
			break
		}
	}
}
