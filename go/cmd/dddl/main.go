// dddl drives schema changes (document/ddl, document/domain): requests, workers, failing operations and commits,
// crashes at every commit, and followers of the recorded changes. Every committed transaction is recorded by what
// it changed in the catalogue.
package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/config"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/util"
	"github.com/zhiqiangxu/util/logger"
	"go.uber.org/zap"

	"mondisverif/kvx"
	"mondisverif/trace"
)

var (
	prop   = flag.String("prop", "M01", "")
	seed   = flag.Int64("seed", 1, "")
	out    = flag.String("out", "", "")
	in     = flag.String("in", "", "")
	size   = flag.Int("size", 1, "")
	follow = flag.Bool("follow", false, "processes that follow")
	only   = flag.String("only", "", "")
)

const hour = 40 * time.Second

// shape builds a valid request
func shape(db string, k int) ddl.CreateSchemaInput {
	in := ddl.CreateSchemaInput{DB: db}
	switch k % 8 {
	case 0:
		in.Collections = []string{"c"}
	case 1: // nothing in it
	case 2:
		in.Collections = []string{"c", "d"}
		in.Indices = map[string][]ddl.IndexInfo{"c": {{Name: "i", Columns: []string{"x"}}, {Name: "j", Columns: []string{"x", "y"}, Unique: true}}}
	case 3:
		in.Collections = []string{"d", "c", "e"}
		in.Indices = map[string][]ddl.IndexInfo{"e": {{Name: "i", Columns: []string{"x"}, Unique: true}}, "c": {{Name: "i", Columns: []string{"y"}}}, "d": {}}
	case 4:
		in.Collections = []string{"b", "a"}
	case 5:
		in.Collections = []string{"c"}
		in.Indices = map[string][]ddl.IndexInfo{"c": {{Name: "", Columns: []string{"x"}}}}
		in.Indices["c"][0].Name = "only"
	case 6:
		in.Collections = []string{"\x00", "ü\"", db}
		in.Indices = map[string][]ddl.IndexInfo{db: {{Name: db, Columns: []string{"", "a.b"}}}}
	case 7:
		for i := 0; i < 12; i++ {
			c := fmt.Sprintf("c%d", i)
			in.Collections = append(in.Collections, c)
			if i%3 == 0 {
				if in.Indices == nil {
					in.Indices = map[string][]ddl.IndexInfo{}
				}
				for j := 0; j < 4; j++ {
					in.Indices[c] = append(in.Indices[c], ddl.IndexInfo{Name: fmt.Sprintf("i%d", j), Columns: []string{c, "x"}[:1+j%2], Unique: j%2 == 0})
				}
			}
		}
	}
	return in
}

// broken builds an invalid request
func broken(db string, k int) ddl.CreateSchemaInput {
	one := []ddl.IndexInfo{{Name: "i", Columns: []string{"x"}}}
	switch k % 8 {
	case 0:
		return ddl.CreateSchemaInput{DB: "", Collections: []string{"c"}}
	case 1:
		return ddl.CreateSchemaInput{DB: db, Collections: []string{"c", ""}}
	case 2:
		return ddl.CreateSchemaInput{DB: db, Collections: []string{"c", "d", "c"}}
	case 3:
		return ddl.CreateSchemaInput{DB: db, Collections: []string{"c"}, Indices: map[string][]ddl.IndexInfo{"d": one}}
	case 4:
		return ddl.CreateSchemaInput{DB: db, Collections: []string{"c"}, Indices: map[string][]ddl.IndexInfo{"c": {one[0], {Name: "i", Columns: []string{"y"}}}}}
	case 5:
		return ddl.CreateSchemaInput{DB: db, Collections: []string{"c"}, Indices: map[string][]ddl.IndexInfo{"c": {{Name: "i"}}}}
	case 6:
		return ddl.CreateSchemaInput{DB: db, Indices: map[string][]ddl.IndexInfo{"c": one}}
	}
	return ddl.CreateSchemaInput{DB: db, Collections: []string{"c"}, Indices: map[string][]ddl.IndexInfo{"c": {{Columns: []string{"x"}}}}}
}

func join(chs ...chan struct{}) bool {
	for _, c := range chs {
		<-c
	}
	return true
}

// finish a scenario: everything drains, the process and a fresh look agree with the store
func (wd *world) finish(fins []chan struct{}) {
	wd.open()
	if wd.quiet(25*time.Second) && join(fins...) && wd.quiet(25*time.Second) {
		wd.view(wd.dom, "owner", wd.oks, true)
		wd.useSome()
	}
	wd.close()
}

// ---------------------------------------------------------------- scenarios

func shapes(wd *world, rnd *rand.Rand, k int) {
	if !wd.start() {
		wd.close()
		return
	}
	var fins []chan struct{}
	do := func(in ddl.CreateSchemaInput) {
		f := wd.create(in, 0, true)
		fins = append(fins, f)
		<-f
	}
	do(shape("a", k))
	do(broken("b", k))
	do(shape("b", k+3))
	do(shape("a", k+1))
	wd.finish(fins)
}

// the nth operation of the worker's transactions fails, times in a row
func opfault(wd *world, rnd *rand.Rand, n, times int) {
	if !wd.start() {
		wd.close()
		return
	}
	left := times
	var mu sync.Mutex
	wd.st.Lock()
	wd.onOp = func(wd *world, t *txnState, c kvx.Call) bool {
		if t.caller != 0 || t.ops != n || t.dead {
			return false
		}
		wd.mu.Lock()
		idle := len(wd.cat.queue) == 0
		wd.mu.Unlock()
		mu.Lock()
		defer mu.Unlock()
		if idle || left == 0 {
			return false
		}
		left--
		return true
	}
	wd.st.Unlock()
	fins := []chan struct{}{wd.create(shape("a", 2), 0, true)}
	time.Sleep(30 * time.Millisecond)
	fins = append(fins, wd.create(shape("b", 3), 0, true))
	time.Sleep(30 * time.Millisecond)
	fins = append(fins, wd.create(shape("a", 4), 0, true))
	if wd.quiet(25 * time.Second) {
		join(fins...)
		f := wd.create(shape("a", 5), 0, true)
		fins = append(fins, f)
		<-f
		wd.finish(fins)
		return
	}
	wd.close()
}

// what one request wants cannot be stored, however often it is tried
func poison(wd *world, rnd *rand.Rand, k int) {
	if !wd.start() {
		wd.close()
		return
	}
	wd.st.Lock()
	wd.onOp = func(wd *world, t *txnState, c kvx.Call) bool {
		return t.caller == 0 && c.Op == "set" && bytes.Contains(c.Value, []byte(`"poison`)) && !bytes.Contains(c.Value, []byte("RawArg"))
	}
	wd.st.Unlock()
	var fins []chan struct{}
	for i := 0; i < 4; i++ {
		in := shape(fmt.Sprintf("n%d", i), i+k)
		if i == 1 {
			in.DB = "poison"
		}
		if i == 2 {
			in.Collections = append(in.Collections, "poisoned")
		}
		fins = append(fins, wd.create(in, 0, true))
		if k%2 == 0 {
			time.Sleep(10 * time.Millisecond)
		}
	}
	if wd.quiet(25 * time.Second) {
		join(fins...)
		wd.finish(fins)
		return
	}
	wd.close()
}

// commits fail: the callers' or the worker's
func commitfault(wd *world, rnd *rand.Rand, n, times int, caller bool) {
	if !wd.start() {
		wd.close()
		return
	}
	seen := 0
	wd.st.Lock()
	wd.onCommit = func(wd *world, t *txnState) decision {
		if (t.caller != 0) != caller {
			return goOn
		}
		seen++
		if seen >= n && seen < n+times {
			return fail
		}
		return goOn
	}
	wd.st.Unlock()
	var fins []chan struct{}
	for i := 0; i < 4; i++ {
		fins = append(fins, wd.create(shape([]string{"a", "b", "a", "c"}[i], i+2), 0, true))
		if i%2 == 0 {
			time.Sleep(10 * time.Millisecond)
		}
	}
	join(fins...)
	wd.finish(fins)
}

// the process ends right before or after the nth commit
func crashat(wd *world, rnd *rand.Rand, n int, after bool, again int) {
	if !wd.start() {
		wd.close()
		return
	}
	arm := func(n int) {
		seen := 0
		wd.st.Lock()
		wd.onCommit = func(wd *world, t *txnState) decision {
			seen++
			if seen == n {
				wd.onCommit = nil
				if after {
					return crashAfter
				}
				return crashBefore
			}
			return goOn
		}
		wd.st.Unlock()
	}
	arm(n)
	var fins []chan struct{}
	for i := 0; i < 3; i++ {
		wd.st.Lock()
		e := wd.epoch
		wd.st.Unlock()
		if e > 0 {
			break
		}
		fins = append(fins, wd.create(shape([]string{"a", "b", "a"}[i], i+2), 0, false))
		time.Sleep(time.Duration(rnd.Intn(6)) * time.Millisecond)
	}
	join(fins...)
	for ; again > 0 && wd.epochNow() > 0; again-- {
		arm(1 + rnd.Intn(4))
		if !wd.restart() {
			wd.close()
			return
		}
		e := wd.epochNow()
		f := wd.create(shape("d", rnd.Intn(8)), 0, false)
		<-f
		if wd.epochNow() == e {
			wd.open()
			wd.finish(nil)
			return
		}
	}
	if wd.epochNow() > 0 {
		if !wd.restart() {
			wd.close()
			return
		}
	}
	wd.open()
	wd.view(wd.dom, "restarted", nil, false)
	f1, f2 := wd.create(shape("b", 4), 0, true), wd.create(shape("z", 2), 0, true)
	wd.finish([]chan struct{}{f1, f2})
}

func (wd *world) epochNow() int {
	wd.st.Lock()
	defer wd.st.Unlock()
	return wd.epoch
}

// many callers at once, with failures
func storm(wd *world, rnd *rand.Rand, callers, names int, faults bool) {
	if !wd.start() {
		wd.close()
		return
	}
	if faults {
		fr := rand.New(rand.NewSource(rnd.Int63()))
		wd.st.Lock()
		wd.onCommit = func(wd *world, t *txnState) decision {
			if fr.Intn(5) == 0 {
				return fail
			}
			return goOn
		}
		wd.st.Unlock()
	}
	var fins []chan struct{}
	for i := 0; i < callers; i++ {
		n := fmt.Sprintf("n%d", rnd.Intn(names))
		var in ddl.CreateSchemaInput
		if rnd.Intn(5) == 0 {
			in = broken(n, rnd.Intn(8))
		} else {
			in = shape(n, rnd.Intn(8))
		}
		var to time.Duration
		if rnd.Intn(6) == 0 {
			to = time.Duration(1+rnd.Intn(900)) * time.Millisecond
		}
		fins = append(fins, wd.create(in, to, rnd.Intn(2) == 0))
		if rnd.Intn(2) == 0 {
			time.Sleep(time.Duration(rnd.Intn(8)) * time.Millisecond)
		}
	}
	join(fins...)
	wd.finish(fins)
}

// the queue fills up while the worker is held
func bound(wd *world, rnd *rand.Rand) {
	if !wd.start() {
		wd.close()
		return
	}
	wd.st.Lock()
	wd.gated = true
	wd.st.Unlock()
	var fins []chan struct{}
	for i := 0; i < 103; i++ {
		f := wd.create(shape(fmt.Sprintf("n%d", i), i%2), 0, false)
		fins = append(fins, f)
		for k := 0; k < 5000; k++ {
			wd.mu.Lock()
			n := len(wd.cat.queue)
			wd.mu.Unlock()
			if n > i {
				break
			}
			select {
			case <-f:
				k = 5000
			default:
				time.Sleep(time.Millisecond)
			}
		}
	}
	wd.open()
	wd.quiet(25 * time.Second)
	f := wd.create(shape("last", 2), 0, true)
	<-f
	wd.finish(fins)
}

// jobs nobody can carry out
func badjobs(wd *world, rnd *rand.Rand, k int) {
	if !wd.start() {
		wd.close()
		return
	}
	bad := func(tp model.ActionType, raw string) chan struct{} {
		d := wd.dom
		return wd.request("bad", "", "", false, 0, func(ctx context.Context) (job *model.Job, err error) {
			for try := 0; ; try++ {
				err = util.RunInNewUpdateTxn(wd.wrap, func(txn mondis.ProviderTxn) error {
					m := meta.NewMeta(txn)
					id, err := m.GenGlobalID()
					if err != nil {
						return err
					}
					job = &model.Job{ID: id, Type: tp, RawArg: json.RawMessage(raw)}
					return m.EnQueueDDLJob(job)
				})
				if err == nil {
					break
				}
				if try > 50 {
					return nil, err
				}
			}
			for i := 0; i < 3000; i++ {
				h, err := d.DDL().GetHistoryJob(job.ID)
				if err == nil && h != nil {
					if h.IsSynced() {
						return job, nil
					}
					return job, h.Error
				}
				time.Sleep(5 * time.Millisecond)
			}
			return job, fmt.Errorf("never ended")
		}, nil)
	}
	f1 := wd.create(shape("a", 2), 0, true)
	var f2 chan struct{}
	switch k % 4 {
	case 0:
		f2 = bad(model.ActionType(77), `{}`)
	case 1:
		f2 = bad(model.ActionCreateSchema, `[1,2]`)
	case 2:
		f2 = bad(model.ActionDropCollection, `{"Name":"a"}`)
	case 3:
		f2 = bad(model.ActionNone, `"x"`)
	}
	f3 := wd.create(shape("b", 3), 0, true)
	wd.finish([]chan struct{}{f1, f2, f3})
}

// a schema so large that it cannot be carried out in one transaction
func big(wd *world, rnd *rand.Rand, mb int) {
	if !wd.start() {
		wd.close()
		return
	}
	in := ddl.CreateSchemaInput{DB: "big", Collections: []string{"c"}}
	in.Indices = map[string][]ddl.IndexInfo{"c": {{Name: "i", Columns: []string{string(make([]byte, 0, 0))}}}}
	b := make([]byte, mb<<20)
	for i := range b {
		b[i] = 'x'
	}
	in.Indices["c"][0].Columns = []string{string(b)}
	wd.remember(in)
	d := wd.dom
	wd.w.Emit(trace.Ev{"e": "fault", "op": "big"})
	f1 := wd.request("schema", in.DB, reqSig(in), true, 0, func(ctx context.Context) (*model.Job, error) { return d.DDL().CreateSchema(ctx, in) }, nil)
	// too big for a transaction: the store itself will refuse
	wd.w.Emit(trace.Ev{"e": "fault", "op": "big"})
	time.Sleep(50 * time.Millisecond)
	f2 := wd.create(shape("b", 3), 0, true)
	wd.finish([]chan struct{}{f1, f2})
}

// adding an index
func addindex(wd *world, rnd *rand.Rand, k int) {
	if !wd.start() {
		wd.close()
		return
	}
	wd.maxEv = 60
	f1 := wd.create(shape("a", 2), 0, true)
	<-f1
	d := wd.dom
	inp := ddl.AddIndexInput{DB: []string{"a", "a", "zz", "a"}[k], Collection: []string{"c", "d", "c", "zz"}[k], IndexInfo: ddl.IndexInfo{Name: "new", Columns: []string{"z"}}}
	f2 := wd.request("index", inp.DB, idxSig("new", inp.IndexInfo.Columns, false), true, 0, func(ctx context.Context) (*model.Job, error) {
		return d.DDL().AddIndex(ctx, inp)
	}, nil)
	time.Sleep(30 * time.Millisecond)
	f3 := wd.create(shape("b", 3), 0, true)
	if k < 2 { // the job is not carried through by this code: it is queued and stays there
		for t0 := time.Now(); time.Since(t0) < 20*time.Second && !wd.queued(); {
			time.Sleep(5 * time.Millisecond)
		}
	}
	if wd.quiet(6 * time.Second) {
		if k < 2 {
			wd.close()
			return
		}
		join(f1, f2, f3)
		wd.view(wd.dom, "owner", wd.oks, true)
		wd.useSome()
	}
	wd.close()
}

// ---------------------------------------------------------------- schedules from the specification

type step struct {
	A string `json:"a"` // call, caller, begin, worker, crash
	N int    `json:"n"` // name
	S int    `json:"s"` // shape
	D string `json:"d"` // ok, fail
}

// take waits for somebody at a gate
func (wd *world) take(pick func() string, limit time.Duration) (ch chan decision) {
	t0 := time.Now()
	for {
		wd.st.Lock()
		if n := pick(); n != "" {
			ch = wd.waiting[n]
			delete(wd.waiting, n)
			wd.st.Unlock()
			return
		}
		wd.st.Unlock()
		if time.Since(t0) > limit {
			return nil
		}
		time.Sleep(time.Millisecond)
	}
}

func (wd *world) has(n string) func() string {
	return func() string {
		if wd.waiting[n] != nil {
			return n
		}
		return ""
	}
}

func (wd *world) lowest() string {
	best := ""
	for n := range wd.waiting {
		if n[0] == 'c' && (best == "" || len(n) < len(best) || len(n) == len(best) && n < best) {
			best = n
		}
	}
	return best
}

func replay(wd *world, rnd *rand.Rand, plan []step) {
	wd.gated, wd.gateCallers = true, true
	if !wd.start() {
		wd.close()
		return
	}
	var fins []chan struct{}
	for _, s := range plan {
		d := goOn
		if s.D == "fail" {
			d = fail
		}
		switch s.A {
		case "call":
			f := wd.create(shape(fmt.Sprintf("n%d", s.N), s.S), 0, false)
			fins = append(fins, f)
			wd.st.Lock()
			name := fmt.Sprintf("c%d", wd.ncall)
			wd.st.Unlock()
			// it runs up to its commit, or returns
			for k := 0; k < 500; k++ {
				select {
				case <-f:
					k = 500
				default:
				}
				wd.st.Lock()
				at := wd.waiting[name] != nil
				wd.st.Unlock()
				if at {
					break
				}
				time.Sleep(time.Millisecond)
			}
		case "caller":
			if ch := wd.take(wd.lowest, 20*time.Millisecond); ch != nil {
				ch <- d
				time.Sleep(3 * time.Millisecond)
			}
		case "begin": // the worker begins and runs up to its commit
			for k := 0; k < 4; k++ {
				ch := wd.take(wd.has("wb"), 1500*time.Millisecond)
				if ch == nil {
					break
				}
				ch <- goOn
				time.Sleep(2 * time.Millisecond)
				wd.st.Lock()
				at := wd.waiting["wc"] != nil
				wd.st.Unlock()
				if at {
					break
				}
			}
		case "worker":
			if ch := wd.take(wd.has("wc"), 100*time.Millisecond); ch != nil {
				ch <- d
				time.Sleep(2 * time.Millisecond)
			}
		case "crash":
			wd.mu.Lock()
			wd.kill()
			wd.mu.Unlock()
			wd.st.Lock()
			wd.gated, wd.gateCallers = true, true
			wd.st.Unlock()
			if !wd.restart() {
				wd.close()
				return
			}
		}
	}
	wd.finish(fins)
}

// ---------------------------------------------------------------- followers

type follower struct {
	wd  *world
	d   *domain.Domain
	mu  sync.Mutex
	c   *sync.Cond
	at  bool
	go_ int
}

func newFollower(wd *world) *follower {
	f := &follower{wd: wd}
	f.c = sync.NewCond(&f.mu)
	g := goid()
	w := &kvx.Wrap{KVDB: wd.kv, Hook: func(c kvx.Call) error {
		if c.Op != "begin" || c.After || goid() == g || wd.mine() {
			return nil
		}
		if c.Upd {
			block() // its worker is elsewhere
		}
		f.mu.Lock()
		f.at = true
		f.c.Broadcast()
		for f.go_ == 0 {
			f.c.Wait()
		}
		f.go_--
		f.at = false
		f.mu.Unlock()
		return nil
	}}
	f.d = domain.NewDomain(w)
	if err := f.d.Init(); err != nil {
		wd.w.Emit(trace.Ev{"e": "init", "r": "err", "detail": err.Error()})
		return nil
	}
	return f
}

// reload lets it reload once and waits until it is about to reload again
func (f *follower) reload() bool {
	ok := make(chan bool, 1)
	go func() {
		f.mu.Lock()
		defer f.mu.Unlock()
		for !f.at {
			f.c.Wait()
		}
		f.at = false
		f.go_++
		f.c.Broadcast()
		for !f.at {
			f.c.Wait()
		}
		ok <- true
	}()
	select {
	case <-ok:
		return true
	case <-time.After(20 * time.Second):
		return false
	}
}

// follow: one process creates, others reload now and then
func followers(wd *world, rnd *rand.Rand, n, nf int, jumps []int) {
	var fs []*follower
	for i := 0; i < nf; i++ { // before anything exists
		f := newFollower(wd)
		if f == nil {
			wd.close()
			return
		}
		fs = append(fs, f)
	}
	if !wd.start() {
		wd.close()
		return
	}
	var fins []chan struct{}
	for i := 0; i < n; {
		k := 1 + rnd.Intn(3)
		if len(jumps) > 0 {
			k, jumps = jumps[0], jumps[1:]
		}
		var now []chan struct{}
		for j := 0; j < k; j++ {
			f := wd.create(shape(fmt.Sprintf("n%d", i), rnd.Intn(7)), 0, false)
			now = append(now, f)
			i++
			if len(now) >= 20 {
				<-now[0]
				now = now[1:]
			}
		}
		if rnd.Intn(2) == 0 {
			join(now...)
		} else {
			fins = append(fins, now...)
		}
		for _, f := range fs {
			if rnd.Intn(3) == 0 && len(jumps) == 0 {
				continue
			}
			if !f.reload() {
				wd.w.Emit(trace.Ev{"e": "view", "r": "hang"})
				wd.close()
				return
			}
			wd.view(f.d, "follower", nil, false)
		}
	}
	join(fins...)
	if wd.quiet(25 * time.Second) {
		for _, f := range fs {
			f.reload()
			wd.view(f.d, "follower", wd.oks, true)
		}
	}
	wd.close()
}

// pairs: from every version to every later one by the recorded changes
func pairs(wd *world, rnd *rand.Rand, n int) {
	if !wd.start() {
		wd.close()
		return
	}
	wd.snaps[0] = nil
	var fins []chan struct{}
	for i := 0; i < n; i++ {
		f := wd.create(shape(fmt.Sprintf("n%d", i/2*2+i%2*(i%3)), i), 0, false)
		fins = append(fins, f)
		if i%3 == 0 {
			<-f
		}
	}
	join(fins...)
	wd.open()
	wd.quiet(25 * time.Second)
	top := wd.cat.ver
	for a := int64(0); a <= top; a++ {
		for b := a; b <= top; b++ {
			for _, step := range []bool{false, true} {
				ev := trace.Ev{"e": "view", "who": fmt.Sprintf("changes %d..%d", a, b), "has": []string{}, "now": false, "ver": 0, "dbs": []dbRec{}}
				res, det := trace.Guard(func() string {
					txn := wd.kv.NewTransaction(false)
					defer txn.Discard()
					m := meta.NewMeta(txn)
					mc := schema.NewMetaCache(a, wd.snaps[a])
					base := mc
					var ds []*model.SchemaDiff
					for v := a + 1; v <= b; v++ {
						d, err := m.GetSchemaDiff(v)
						if err != nil || d == nil {
							return "nodiff"
						}
						ds = append(ds, d)
						if step {
							mc = mc.Clone()
							if mc.ApplyDiffs(ds) != nil {
								return "err"
							}
							ds = nil
						}
					}
					if len(ds) > 0 {
						mc = mc.Clone()
						if mc.ApplyDiffs(ds) != nil {
							return "err"
						}
					}
					if mc != base && base.Version() != a {
						return "changed"
					}
					ev["ver"], ev["dbs"] = mc.Version(), wd.cacheDBs(mc, nil)
					if mc.Version() != b {
						return "version"
					}
					return "ok"
				})
				ev["r"], ev["detail"] = res, det
				wd.w.Emit(ev)
			}
		}
	}
	wd.close()
}

// ---------------------------------------------------------------- running many

type scenario struct {
	how string
	f   func(*world, *rand.Rand)
}

func main() {
	flag.Parse()
	logger.SetInstance(zap.NewNop())
	config.Load().WorkerMaxTickInterval = 10 * time.Millisecond
	if *follow {
		config.Load().Lease = 20 * time.Millisecond
	}
	var list []scenario
	add := func(how string, f func(*world, *rand.Rand)) { list = append(list, scenario{how, f}) }
	q := func(a, b int) int {
		if *size > 1 {
			return b
		}
		return a
	}
	rnd := rand.New(rand.NewSource(*seed*1000003 + 11))
	if *follow {
		for i := 0; i < q(12, 60); i++ {
			i := i
			add("follow", func(wd *world, r *rand.Rand) { followers(wd, r, 10+r.Intn(10), 1+i%3, nil) })
		}
		add("follow-far", func(wd *world, r *rand.Rand) { followers(wd, r, 118, 2, []int{1, 103, 1, 2}) })
		add("follow-99", func(wd *world, r *rand.Rand) { followers(wd, r, 106, 1, []int{2, 99, 1, 1}) })
		add("follow-100", func(wd *world, r *rand.Rand) { followers(wd, r, 106, 1, []int{2, 100, 1, 1}) })
		add("follow-101", func(wd *world, r *rand.Rand) { followers(wd, r, 106, 1, []int{2, 101, 1, 1}) })
		for i := 0; i < q(4, 12); i++ {
			add("pairs", func(wd *world, r *rand.Rand) { pairs(wd, r, 9+r.Intn(4)) })
		}
	} else {
		if *in != "" {
			f, err := os.Open(*in)
			trace.Must(err, "behaviours")
			sc := bufio.NewScanner(f)
			sc.Buffer(nil, 1<<26)
			for sc.Scan() {
				var plan []step
				trace.Must(json.Unmarshal(sc.Bytes(), &plan), "behaviour")
				add("generated", func(wd *world, r *rand.Rand) { replay(wd, r, plan) })
			}
		}
		add("bound", bound)
		for k := 0; k < 8; k++ {
			k := k
			add("shapes", func(wd *world, r *rand.Rand) { shapes(wd, r, k) })
		}
		for k := 0; k < 4; k++ {
			k := k
			add("badjobs", func(wd *world, r *rand.Rand) { badjobs(wd, r, k) })
			add("addindex", func(wd *world, r *rand.Rand) { addindex(wd, r, k) })
		}
		for k := 0; k < q(4, 8); k++ {
			k := k
			add("poison", func(wd *world, r *rand.Rand) { poison(wd, r, k) })
		}
		for _, mb := range []int{1, 3, 6} {
			mb := mb
			add("big", func(wd *world, r *rand.Rand) { big(wd, r, mb) })
		}
		for n := 1; n <= 60; n++ {
			n := n
			for _, t := range []int{1, 2, 3} {
				t := t
				if *size == 1 && (n+t)%2 == 0 && t < 3 {
					continue
				}
				add("opfault", func(wd *world, r *rand.Rand) { opfault(wd, r, n, t) })
			}
		}
		for n := 1; n <= 9; n++ {
			n := n
			for _, after := range []bool{false, true} {
				after := after
				for k := 0; k < q(1, 5); k++ {
					k := k
					add("crash", func(wd *world, r *rand.Rand) { crashat(wd, r, n, after, (n+k)%3) })
				}
			}
			for _, c := range []bool{false, true} {
				c := c
				add("commitfault", func(wd *world, r *rand.Rand) { commitfault(wd, r, n, 1+n%5, c) })
			}
		}
		for k := 0; k < q(24, 200); k++ {
			k := k
			add("storm", func(wd *world, r *rand.Rand) { storm(wd, r, 4+r.Intn(20), 1+r.Intn(8), k%3 == 0) })
		}
	}
	w := trace.Open(*out)
	dir := trace.Scratch("parts")
	parts := make([]string, len(list))
	var amu sync.Mutex
	collect := func() {
		amu.Lock() // for good
		trace.Enough = nil
		for _, p := range parts {
			if p == "" {
				continue
			}
			if b, err := os.ReadFile(p); err == nil {
				if i := bytes.LastIndexByte(b, '\n'); i > 0 { // those still running have their tails elsewhere
					trace.Must(os.WriteFile(p, b[:i+1], 0600), "part")
					w.Append(p)
				}
			}
		}
		w.Close()
		os.Exit(0)
	}
	trace.Enough = collect
	sem := make(chan struct{}, 48)
	var wg sync.WaitGroup
	for i, s := range list {
		if *only != "" && s.how != *only {
			continue
		}
		i, s := i, s
		r := rand.New(rand.NewSource(rnd.Int63()))
		sem <- struct{}{}
		parts[i] = fmt.Sprintf("%s/%d", dir, i)
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			pw := trace.Open(parts[i])
			wd := newWorld(pw, s.how, int64(i+1)*1000000)
			t0 := time.Now()
			s.f(wd, r)
			if d := time.Since(t0); d > 10*time.Second {
				fmt.Fprintln(os.Stderr, "slow", i, s.how, d)
			}
		}()
	}
	wg.Wait()
	collect()
}
