// dhandle drives the schema handle (document/schema): updates with recorded changes or whole schemas, checks
// against every cache seen before, callers with deadlines, and concurrent callers.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"

	"mondisverif/trace"
)

var (
	prop = flag.String("prop", "M03", "")
	seed = flag.Int64("seed", 1, "")
	out  = flag.String("out", "", "")
	in   = flag.String("in", "", "")
	size = flag.Int("size", 1, "")
)

type op struct {
	E     string `json:"e"`
	Full  bool   `json:"full"`
	N     int    `json:"n"`
	Touch []int  `json:"touch"`
	Back  int    `json:"back"`
	Refs  []int  `json:"refs"`
}

type runner struct {
	w      *trace.W
	rnd    *rand.Rand
	h      *schema.Handle
	caches []*schema.MetaCache // by index-1 in the trace
	names  int
	dead   bool
	ids    []int64 // the collection ids behind 1, 2, 3..
}

func newRunner(w *trace.W, rnd *rand.Rand, how string) *runner {
	r := &runner{w: w, rnd: rnd, h: schema.NewHandle(), caches: []*schema.MetaCache{nil}}
	r.ids = [][]int64{{1, 2, 3, 4}, {0, -1, 1 << 40, 5}, {1<<63 - 1, 7, 1, 100}}[rnd.Intn(3)]
	w.Reset(trace.Ev{"how": how})
	return r
}

func (r *runner) last() *schema.MetaCache { return r.caches[len(r.caches)-1] }

func (r *runner) diff(v int64, touch []int) *model.SchemaDiff {
	r.names++
	d := &model.SchemaDiff{Version: v, Type: model.ActionCreateSchema, Arg: &model.DBInfo{Name: fmt.Sprintf("db%d", r.names)}}
	for _, c := range touch {
		d.CollectionIDs = append(d.CollectionIDs, r.ids[c])
	}
	b, err := d.Encode()
	trace.Must(err, "encode")
	e := &model.SchemaDiff{}
	trace.Must(e.Decode(b), "decode")
	return e
}

// next builds the cache an update will install, and its event
func (r *runner) next(full bool, jump int, dss [][]int) (*schema.MetaCache, trace.Ev) {
	cur := r.last()
	ev := trace.Ev{"e": "update", "full": full, "v": 0, "ds": dss, "may": false}
	if cur == nil || full {
		v := int64(jump)
		if cur != nil {
			v += cur.Version()
		} else if v == 0 {
			v = 1
		}
		ev["full"], ev["v"], ev["ds"] = true, v, [][]int{}
		return schema.NewMetaCache(v, []*model.DBInfo{{ID: 1, Name: fmt.Sprintf("whole%d", r.names)}}), ev
	}
	c := cur.Clone()
	var diffs []*model.SchemaDiff
	for i, t := range dss {
		diffs = append(diffs, r.diff(cur.Version()+1+int64(i), t))
	}
	if err := c.ApplyDiffs(diffs); err != nil {
		ev["r"] = "err"
		ev["detail"] = err.Error()
		return nil, ev
	}
	return c, ev
}

// ctx gives a context that may end early
func (r *runner) ctx(kind int) (context.Context, func(), bool) {
	switch kind {
	case 0:
		c, f := context.WithCancel(context.Background())
		f()
		return c, func() {}, true
	case 1:
		c, f := context.WithTimeout(context.Background(), time.Duration(r.rnd.Intn(100))*time.Microsecond)
		return c, f, true
	}
	return context.Background(), func() {}, false
}

func (r *runner) update(full bool, jump int, dss [][]int) {
	if r.dead {
		return
	}
	var c *schema.MetaCache
	var ev trace.Ev
	res, detail := trace.Guard(func() string { c, ev = r.next(full, jump, dss); return "ok" })
	if res != "ok" {
		r.w.Emit(trace.Ev{"e": "update", "r": res, "detail": detail, "may": false})
		r.dead = true
		return
	}
	if c == nil {
		r.w.Emit(ev)
		r.dead = true
		return
	}
	kind := -1
	if r.rnd.Intn(12) == 0 {
		kind = r.rnd.Intn(2)
	}
	cx, stop, may := r.ctx(kind)
	defer stop()
	res, detail = trace.Guard(func() string {
		if r.h.Update(cx, c) != nil {
			return "err"
		}
		return "ok"
	})
	ev["r"], ev["may"] = res, may
	if detail != "" {
		ev["detail"] = detail
	}
	if res == "ok" {
		r.caches = append(r.caches, c)
		if r.h.Get() != c {
			ev["r"] = "lost"
		}
	}
	if res == "hang" || res == "panic" {
		r.dead = true
	}
	r.w.Emit(ev)
}

func (r *runner) check(start int, refs []int, kind int, lo, hi func() int) trace.Ev {
	m := map[int64]struct{}{}
	for _, c := range refs {
		m[r.ids[c]] = struct{}{}
	}
	if len(m) == 0 && r.rnd.Intn(2) == 0 {
		m = nil
	}
	cx, stop, may := r.ctx(kind)
	defer stop()
	ev := trace.Ev{"e": "check", "start": start + 1, "refs": append([]int{}, refs...), "may": may, "lo": lo()}
	st := r.caches[start]
	res, detail := trace.Guard(func() string {
		ok, err := r.h.Check(cx, st, m)
		if err != nil {
			return "err"
		}
		if ok {
			return "ok"
		}
		return "conflict"
	})
	ev["r"], ev["hi"] = res, hi()
	if detail != "" {
		ev["detail"] = detail
	}
	return ev
}

func (r *runner) checkNow(start int, refs []int) {
	if r.dead {
		return
	}
	kind := -1
	if r.rnd.Intn(12) == 0 {
		kind = r.rnd.Intn(2)
	}
	n := func() int { return len(r.caches) }
	ev := r.check(start, refs, kind, n, n)
	if ev["r"] == "hang" || ev["r"] == "panic" {
		r.dead = true
	}
	r.w.Emit(ev)
}

// gap offers changes that do not follow on
func (r *runner) gap() {
	if r.dead || r.last() == nil {
		return
	}
	v := r.last().Version()
	res, detail := trace.Guard(func() string {
		var ds []*model.SchemaDiff
		switch r.rnd.Intn(4) {
		case 0:
			ds = []*model.SchemaDiff{r.diff(v+2, nil)}
		case 1:
			ds = []*model.SchemaDiff{r.diff(v+1, nil), r.diff(v+3, nil)}
		case 2:
			ds = []*model.SchemaDiff{r.diff(v, nil), r.diff(v+1, nil)}
		default:
			ds = []*model.SchemaDiff{r.diff(v+1, nil), r.diff(v+1, nil)}
		}
		if r.last().Clone().ApplyDiffs(ds) != nil {
			return "err"
		}
		return "ok"
	})
	r.w.Emit(trace.Ev{"e": "gap", "r": res, "detail": detail})
}

func subset(rnd *rand.Rand, p int) (s []int) {
	s = []int{}
	for c := 0; c < 4; c++ {
		if rnd.Intn(p) == 0 {
			s = append(s, c)
		}
	}
	return
}

func random(w *trace.W, rnd *rand.Rand, n int) {
	r := newRunner(w, rnd, "random")
	long := rnd.Intn(3) == 0
	p := 1 + rnd.Intn(12)
	for k := 0; k < n && !r.dead; k++ {
		switch x := rnd.Intn(20); {
		case x < 6:
			cnt := 1 + rnd.Intn(3)
			if long && rnd.Intn(4) == 0 {
				cnt = 90 + rnd.Intn(25)
			}
			dss := make([][]int, cnt)
			for i := range dss {
				dss[i] = []int{}
				if rnd.Intn(1+cnt/2) == 0 {
					dss[i] = subset(rnd, p)
				}
			}
			r.update(false, rnd.Intn(4), dss)
		case x < 7:
			r.update(true, rnd.Intn(3), nil)
		case x < 8:
			r.gap()
		default:
			i := len(r.caches) - 1 - rnd.Intn(8)
			if i < 0 || rnd.Intn(8) == 0 {
				i = rnd.Intn(len(r.caches))
			}
			r.checkNow(i, subset(rnd, 3))
		}
	}
}

func replay(w *trace.W, rnd *rand.Rand, ops []op) {
	r := newRunner(w, rnd, "generated")
	for _, o := range ops {
		if o.E == "update" {
			dss := make([][]int, o.N)
			for i := range dss {
				dss[i] = []int{}
			}
			dss[rnd.Intn(o.N)] = append([]int{}, o.Touch...)
			r.update(o.Full, o.N%3, dss)
		} else {
			i := len(r.caches) - 1 - o.Back
			if i < 0 {
				i = 0
			}
			r.checkNow(i, o.Refs)
		}
	}
}

// concurrent checkers, some with deadlines, while one updates
func concurrent(w *trace.W, rnd *rand.Rand, n int) {
	r := newRunner(w, rnd, "concurrent")
	r.update(true, 3, nil)
	var begun, done int64 = int64(len(r.caches)), int64(len(r.caches))
	var mu sync.Mutex // guards caches
	var wg sync.WaitGroup
	var dead int32
	for g := 0; g < 6; g++ {
		x := &runner{w: w, rnd: rand.New(rand.NewSource(rnd.Int63())), h: r.h, ids: r.ids}
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < n && atomic.LoadInt32(&dead) == 0; k++ {
				mu.Lock()
				x.caches = r.caches
				mu.Unlock()
				i := len(x.caches) - 1 - x.rnd.Intn(4)
				if i < 0 {
					i = 0
				}
				kind := -1
				if x.rnd.Intn(5) == 0 {
					kind = x.rnd.Intn(2)
				}
				ev := x.check(i, subset(x.rnd, 3), kind, func() int { return int(atomic.LoadInt64(&done)) }, func() int { return int(atomic.LoadInt64(&begun)) })
				if ev["r"] == "hang" || ev["r"] == "panic" {
					atomic.StoreInt32(&dead, 1)
				}
				w.Emit(ev)
			}
		}()
	}
	for k := 0; k < n && atomic.LoadInt32(&dead) == 0; k++ {
		c, ev := r.next(rnd.Intn(10) == 0, rnd.Intn(2), [][]int{subset(rnd, 5)})
		if c == nil {
			w.Emit(ev)
			break
		}
		ev["r"] = "ok"
		w.Emit(ev) // before it happens: checks that see it are recorded later
		atomic.AddInt64(&begun, 1)
		res, detail := trace.Guard(func() string {
			if r.h.Update(context.Background(), c) != nil {
				return "err"
			}
			return "ok"
		})
		if res != "ok" {
			w.Emit(trace.Ev{"e": "update", "r": res, "detail": detail, "may": false})
			atomic.StoreInt32(&dead, 1)
			break
		}
		mu.Lock()
		r.caches = append(r.caches[:len(r.caches):len(r.caches)], c)
		mu.Unlock()
		atomic.AddInt64(&done, 1)
	}
	wg.Wait()
	if atomic.LoadInt32(&dead) != 0 {
		return
	}
	// nothing is left locked
	r.update(false, 0, [][]int{{0}})
	r.checkNow(len(r.caches)-1, []int{0})
	r.checkNow(len(r.caches)-2, []int{0})
}

func main() {
	flag.Parse()
	w := trace.Open(*out)
	rnd := rand.New(rand.NewSource(*seed*1000003 + 3))
	if *in != "" {
		f, err := os.Open(*in)
		trace.Must(err, "behaviours")
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			var ops []op
			trace.Must(json.Unmarshal(sc.Bytes(), &ops), "behaviour")
			replay(w, rnd, ops)
		}
	}
	for k := 0; k < 60**size; k++ {
		random(w, rnd, 80)
	}
	for k := 0; k < 10**size; k++ {
		concurrent(w, rnd, 60)
	}
	w.Close()
}
