package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/ddl"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/domain"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/txn"
	"github.com/zhiqiangxu/util/osc"

	"mondisverif/kvx"
	"mondisverif/trace"
)

// ---------------------------------------------------------------- descriptions of schemas

func short(s string) string {
	if len(s) < 300 {
		return s
	}
	h := sha256.Sum256([]byte(s))
	return fmt.Sprintf("%s..%d:%s", s[:40], len(s), hex.EncodeToString(h[:8]))
}

func idxSig(name string, cols []string, unique bool) string {
	b, _ := json.Marshal(cols)
	u := ""
	if unique {
		u = "u"
	}
	return fmt.Sprintf("%q%s%s", name, b, u)
}

// reqSig describes a request
func reqSig(in ddl.CreateSchemaInput) string {
	var cs []string
	for _, c := range in.Collections {
		var is []string
		for _, i := range in.Indices[c] {
			is = append(is, idxSig(i.Name, i.Columns, i.Unique))
		}
		cs = append(cs, fmt.Sprintf("%q(%s)", c, strings.Join(is, " ")))
	}
	return short(strings.Join(cs, " "))
}

// collSig describes a collection and appends its ids; st: the state everything must be in
func collSig(c *model.CollectionInfo, st osc.SchemaState, ids *[]int64) string {
	if c == nil {
		return "!nil"
	}
	*ids = append(*ids, c.ID)
	var is []string
	for _, n := range c.IndexOrder {
		i := c.Indices[n]
		if i == nil {
			is = append(is, "!missing "+n)
			continue
		}
		*ids = append(*ids, i.ID)
		s := idxSig(i.Name, i.Columns, i.Unique)
		if i.Name != n {
			s += "!name " + n
		}
		if i.State != st {
			s += fmt.Sprintf("!state%d", i.State)
		}
		if i.JobRedundant != nil {
			s += "!redundant"
		}
		is = append(is, s)
	}
	s := fmt.Sprintf("%q(%s)", c.Name, strings.Join(is, " "))
	if len(c.IndexOrder) != len(c.Indices) {
		s += fmt.Sprintf("!%d/%d", len(c.IndexOrder), len(c.Indices))
	}
	if c.State != st {
		s += fmt.Sprintf("!state%d", c.State)
	}
	return s
}

// dbSig describes a database: its ids are its own, then those of its collections and their indexes
func dbSig(d *model.DBInfo, st osc.SchemaState, get func(name string) *model.CollectionInfo) (sig string, ids []int64, cids []int64) {
	ids = []int64{d.ID}
	cids = []int64{}
	var cs []string
	for _, n := range d.CollectionOrder {
		c := get(n)
		if c != nil {
			cids = append(cids, c.ID)
			if c.Name != n {
				cs = append(cs, "!name")
			}
		}
		cs = append(cs, collSig(c, st, &ids))
	}
	if len(d.CollectionOrder) != len(d.Collections) {
		cs = append(cs, "!count")
	}
	if d.State != st {
		cs = append(cs, fmt.Sprintf("!state%d", d.State))
	}
	return short(strings.Join(cs, " ")), ids, cids
}

func inDB(d *model.DBInfo) func(string) *model.CollectionInfo {
	return func(n string) *model.CollectionInfo { return d.Collections[n] }
}

// ---------------------------------------------------------------- the committed catalogue

type dbRec struct {
	Name string  `json:"name"`
	Sig  string  `json:"sig"`
	Csig string  `json:"csig"`
	Ids  []int64 `json:"ids"`
}

type jobRec struct {
	ID   int64   `json:"id"`
	Name string  `json:"name"`
	Sig  string  `json:"sig"`
	Ids  []int64 `json:"ids"`
	Cids []int64 `json:"cids"`
	Typ  string  `json:"typ"`
}

type histRec struct {
	ID  int64  `json:"id"`
	Ok  bool   `json:"ok"`
	Err string `json:"err"`
}

type diffRec struct {
	V    int64   `json:"v"`
	Typ  string  `json:"typ"`
	Name string  `json:"name"`
	Sig  string  `json:"sig"`
	Ids  []int64 `json:"ids"`
	Cids []int64 `json:"cids"`
}

type catalog struct {
	ver, gid int64
	dbs      map[int64]dbRec
	infos    []*model.DBInfo
	queue    []jobRec
	hist     map[int64]histRec
	diffs    map[int64]diffRec
}

func typName(t model.ActionType) string {
	switch t {
	case model.ActionCreateSchema:
		return "schema"
	case model.ActionAddIndex:
		return "index"
	}
	return "bad"
}

func jobOf(j *model.Job) (r jobRec) {
	r = jobRec{ID: j.ID, Typ: typName(j.Type), Ids: []int64{}, Cids: []int64{}}
	switch j.Type {
	case model.ActionCreateSchema:
		d := &model.DBInfo{}
		if err := json.Unmarshal(j.RawArg, d); err != nil {
			r.Typ = "bad"
			return
		}
		r.Name = d.Name
		r.Sig, r.Ids, r.Cids = dbSig(d, osc.StateAbsent, inDB(d))
	case model.ActionAddIndex:
		i := &model.IndexInfo{}
		if err := json.Unmarshal(j.RawArg, i); err != nil || i.JobRedundant == nil {
			r.Typ = "bad"
			return
		}
		r.Name = i.JobRedundant.DB
		r.Sig = idxSig(i.Name, i.Columns, i.Unique)
		r.Ids = []int64{i.ID}
		r.Cids = []int64{i.JobRedundant.CID}
	}
	return
}

func (wd *world) dump() *catalog {
	txn := wd.kv.NewTransaction(false)
	defer txn.Discard()
	m := meta.NewMeta(txn)
	c := &catalog{dbs: map[int64]dbRec{}, hist: map[int64]histRec{}, diffs: map[int64]diffRec{}}
	var err error
	c.ver, err = m.GetSchemaVersion()
	trace.Must(err, "version")
	c.gid, _ = m.GetGlobalID()
	c.infos, err = m.ListDatabases()
	trace.Must(err, "databases")
	for _, d := range c.infos {
		r := dbRec{Name: d.Name}
		r.Sig, r.Ids, _ = dbSig(d, osc.StatePublic, inDB(d))
		cs, err := m.ListCollections(d.ID)
		byID := map[int64]*model.CollectionInfo{}
		for _, ci := range cs {
			byID[ci.ID] = ci
		}
		r.Csig, _, _ = dbSig(d, osc.StatePublic, func(n string) *model.CollectionInfo {
			if d.Collections[n] == nil {
				return nil
			}
			return byID[d.Collections[n].ID]
		})
		if err != nil || len(cs) != len(d.Collections) {
			r.Csig += fmt.Sprintf("!collections %d %v", len(cs), err)
		}
		c.dbs[d.ID] = r
	}
	js, err := m.GetAllDDLJobsInQueue()
	trace.Must(err, "queue")
	for i := int64(0); i < int64(len(js)); i++ {
		j, err := m.GetDDLJobByIdx(i)
		trace.Must(err, "job")
		c.queue = append(c.queue, jobOf(j))
	}
	hs, err := m.GetAllHistoryDDLJobs()
	trace.Must(err, "history")
	for _, j := range hs {
		h := histRec{ID: j.ID, Ok: j.IsSynced()}
		if j.Error != nil {
			h.Err = j.Error.Error()
		}
		if h.Ok {
			h.Err = ""
		}
		c.hist[j.ID] = h
	}
	for v := int64(1); v <= c.ver+1; v++ {
		d, err := m.GetSchemaDiff(v)
		trace.Must(err, "diff")
		if d == nil {
			continue
		}
		r := diffRec{V: v, Typ: typName(d.Type), Cids: append([]int64{}, d.CollectionIDs...), Ids: []int64{}}
		if d.Version != v {
			r.V = -1
		}
		if d.Type == model.ActionCreateSchema {
			i := &model.DBInfo{}
			if d.DecodeArg(i) == nil {
				r.Name = i.Name
				r.Sig, r.Ids, _ = dbSig(i, osc.StatePublic, inDB(i))
			}
		}
		c.diffs[v] = r
	}
	return c
}

func eq(a, b interface{}) bool {
	x, _ := json.Marshal(a)
	y, _ := json.Marshal(b)
	return bytes.Equal(x, y)
}

// delta is the event of a commit
func delta(a, b *catalog) trace.Ev {
	q := []int64{}
	newq := []jobRec{}
	old := map[int64]bool{}
	for _, j := range a.queue {
		old[j.ID] = true
	}
	for _, j := range b.queue {
		q = append(q, j.ID)
		if !old[j.ID] {
			newq = append(newq, j)
		}
	}
	add, chg := []dbRec{}, []dbRec{}
	for id, r := range b.dbs {
		o, ok := a.dbs[id]
		if !ok {
			add = append(add, r)
		} else if !eq(o, r) {
			chg = append(chg, r)
		}
	}
	for id, r := range a.dbs {
		if _, ok := b.dbs[id]; !ok {
			r.Csig = "gone"
			chg = append(chg, r)
		}
	}
	hist := []histRec{}
	for id, r := range b.hist {
		if o, ok := a.hist[id]; !ok || !eq(o, r) {
			hist = append(hist, r)
		}
	}
	for id := range a.hist {
		if _, ok := b.hist[id]; !ok {
			hist = append(hist, histRec{ID: -id})
		}
	}
	diff := []diffRec{}
	for v, r := range b.diffs {
		if o, ok := a.diffs[v]; !ok || !eq(o, r) {
			diff = append(diff, r)
		}
	}
	for v := range a.diffs {
		if _, ok := b.diffs[v]; !ok {
			diff = append(diff, diffRec{V: -v})
		}
	}
	sort.Slice(hist, func(i, j int) bool { return hist[i].ID < hist[j].ID })
	return trace.Ev{"e": "commit", "ver": b.ver, "gid": b.gid, "q": q, "newq": newq, "add": add, "chg": chg, "hist": hist, "diff": diff}
}

// ---------------------------------------------------------------- a store and the process on it

type decision int

const (
	goOn decision = iota
	fail
	crashBefore
	crashAfter
)

// actor of a transaction: a caller of the driver, or the code's own worker
type txnState struct {
	caller int // 0: not one of the driver's callers
	main   bool
	ops    int
	wrote  bool
	dead   bool // a fault hit it
	watch  bool
	onOp   func(wd *world, t *txnState, c kvx.Call) bool
}

type world struct {
	kv    mondis.KVDB
	loc   *kvx.Local
	w     *trace.W
	mu    sync.Mutex // commits and their events
	st    sync.Mutex // everything below
	epoch int
	wrap  *kvx.Wrap
	dom   *domain.Domain
	txns  map[int64]*txnState
	gids  map[uint64]int // goroutine -> caller
	cat   *catalog
	snaps map[int64][]*model.DBInfo
	names map[string]*nameInfo
	oks   []string
	ncall int
	stop  bool // no more events

	// gates: when on, transactions of the worker wait at their begin, and those with effects before their commit
	gated       bool
	gateCallers bool
	waiting     map[string]chan decision // "wb", "wc", "c<n>"
	gateCh      *sync.Cond

	// fault injection into the transactions of the worker
	onOp     func(wd *world, t *txnState, c kvx.Call) bool // true: fail this operation
	onCommit func(wd *world, t *txnState) decision
	maxEv    int
	crashed  chan struct{}
}

type nameInfo struct{ colls map[string]bool }

func goid() uint64 {
	b := make([]byte, 64)
	b = b[:runtime.Stack(b, false)]
	var id uint64
	fmt.Sscanf(string(b), "goroutine %d ", &id)
	return id
}

func newWorld(w *trace.W, how string, base int64) *world {
	loc := kvx.OpenLocal("badger")
	wd := &world{kv: loc.KV, loc: loc, w: w, txns: map[int64]*txnState{}, gids: map[uint64]int{}, waiting: map[string]chan decision{},
		snaps: map[int64][]*model.DBInfo{}, names: map[string]*nameInfo{}, crashed: make(chan struct{}), maxEv: 3000}
	wd.gateCh = sync.NewCond(&wd.st)
	// other users of the ids came first
	trace.Must(func() error {
		txn := wd.kv.NewTransaction(true)
		defer txn.Discard()
		if _, _, err := meta.NewMeta(txn).GenGlobalIDs(int(base)); err != nil {
			return err
		}
		return txn.Commit()
	}(), "global id")
	wd.cat = wd.dump()
	w.Reset(trace.Ev{"how": how, "gid": wd.cat.gid})
	return wd
}

func block() { select {} }

func (wd *world) hook(epoch int) func(kvx.Call) error {
	return func(c kvx.Call) error {
		g := goid()
		wd.st.Lock()
		if wd.epoch != epoch || wd.stop {
			n, mine := wd.gids[g]
			wd.st.Unlock()
			if mine && n == 0 {
				return kvx.ErrInjected // the driver's, dropping what is left of a dead process
			}
			block()
		}
		t := wd.txns[c.Txn]
		if c.Op == "begin" && !c.After {
			n, ok := wd.gids[g]
			t = &txnState{caller: n, main: ok && n == 0}
			wd.txns[c.Txn] = t
			if wd.gated && !ok && c.Upd {
				wd.wait("wb")
			}
			t.onOp = wd.onOp
		}
		gone := wd.epoch != epoch || wd.stop
		wd.st.Unlock()
		if gone {
			block()
		}
		if t == nil || c.Op == "begin" {
			return nil
		}
		switch {
		case c.Op == "commit" && !c.After:
			return wd.beforeCommit(t, epoch)
		case c.Op == "commit":
			return wd.afterCommit(t, c, epoch)
		case !c.After:
			if c.Op == "set" || c.Op == "delete" {
				t.wrote = true
			}
			t.ops++
			if t.onOp != nil && !t.main && t.onOp(wd, t, c) {
				t.dead = true
				wd.w.Emit(trace.Ev{"e": "fault", "op": c.Op, "n": t.ops})
				return kvx.ErrInjected
			}
		}
		return nil
	}
}

// wait at a gate (wd.st held)
func (wd *world) wait(name string) decision {
	ch := make(chan decision, 1)
	wd.waiting[name] = ch
	wd.gateCh.Broadcast()
	wd.st.Unlock()
	d := <-ch
	wd.st.Lock()
	return d
}

func (wd *world) beforeCommit(t *txnState, epoch int) error {
	if !t.wrote {
		return nil
	}
	d := goOn
	wd.st.Lock()
	if wd.gated && !t.main && (t.caller == 0 || wd.gateCallers) {
		if t.caller == 0 {
			d = wd.wait("wc")
		} else {
			d = wd.wait(fmt.Sprintf("c%d", t.caller))
		}
	}
	if d == goOn && wd.onCommit != nil && !t.main {
		d = wd.onCommit(wd, t)
	}
	gone := wd.epoch != epoch || wd.stop
	wd.st.Unlock()
	if gone {
		block()
	}
	switch d {
	case fail:
		wd.w.Emit(trace.Ev{"e": "fault", "op": "commit"})
		return kvx.ErrInjected
	case crashBefore:
		wd.mu.Lock()
		if !wd.gone(epoch) {
			wd.kill()
		}
		wd.mu.Unlock()
		block()
	}
	wd.mu.Lock()
	if wd.gone(epoch) {
		wd.mu.Unlock()
		block()
	}
	if d == crashAfter {
		t.watch = true
	}
	return nil
}

func (wd *world) afterCommit(t *txnState, c kvx.Call, epoch int) error {
	if !t.wrote {
		return nil
	}
	if c.Err == nil {
		wd.commit()
	}
	if t.watch {
		wd.kill()
		wd.mu.Unlock()
		block()
	}
	wd.mu.Unlock()
	return nil
}

// commit records what a commit did (wd.mu held)
func (wd *world) commit() {
	n := wd.dump()
	ev := delta(wd.cat, n)
	if n.ver != wd.cat.ver {
		wd.snaps[n.ver] = n.infos
	}
	wd.cat = n
	wd.maxEv--
	if wd.maxEv < 0 {
		return
	}
	wd.w.Emit(ev)
}

func (wd *world) gone(epoch int) bool {
	wd.st.Lock()
	defer wd.st.Unlock()
	return wd.epoch != epoch || wd.stop
}

// emit after the events of commits that are being made
func (wd *world) emit(ev trace.Ev) {
	wd.mu.Lock()
	defer wd.mu.Unlock()
	wd.w.Emit(ev)
}

// kill ends the process: nothing it does from now on reaches the store (wd.mu held)
func (wd *world) kill() {
	wd.st.Lock()
	wd.epoch++
	wd.gated, wd.onOp, wd.onCommit = false, nil, nil
	wd.waiting = map[string]chan decision{} // those waiting stay there
	close(wd.crashed)
	wd.crashed = make(chan struct{})
	wd.st.Unlock()
	wd.w.Emit(trace.Ev{"e": "crash"})
}

// as runs f as the driver's own goroutine (not the worker's)
func (wd *world) as(n int, f func()) {
	g := goid()
	wd.st.Lock()
	wd.gids[g] = n
	wd.st.Unlock()
	f()
	wd.st.Lock()
	delete(wd.gids, g)
	wd.st.Unlock()
}

// start a process on the store
func (wd *world) start() bool {
	for _, d := range wd.dump().infos {
		for _, c := range d.Collections {
			wd.as(0, func() { dml.DropSequenceIfExists(c.ID) })
		}
	}
	wd.st.Lock()
	wd.wrap = &kvx.Wrap{KVDB: wd.kv, Hook: wd.hook(wd.epoch)}
	wd.st.Unlock()
	dom := domain.NewDomain(wd.wrap)
	var detail string
	res, det := trace.Guard(func() (r string) {
		r = "ok"
		wd.as(0, func() {
			if err := dom.Init(); err != nil {
				r, detail = "err", err.Error()
			}
		})
		return
	})
	wd.w.Emit(trace.Ev{"e": "init", "r": res, "detail": detail + det})
	wd.st.Lock()
	wd.dom = dom
	wd.st.Unlock()
	return res == "ok"
}

// restart after a crash; the sequences of the dead process go first
func (wd *world) restart() bool {
	time.Sleep(20 * time.Millisecond)
	return wd.start()
}

func (wd *world) remember(in ddl.CreateSchemaInput) {
	wd.st.Lock()
	defer wd.st.Unlock()
	n := wd.names[in.DB]
	if n == nil {
		n = &nameInfo{colls: map[string]bool{}}
		wd.names[in.DB] = n
	}
	for _, c := range in.Collections {
		n.colls[c] = true
	}
}

func class(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == context.Canceled || err == context.DeadlineExceeded:
		return "ctx"
	case err.Error() == ddl.ErrDBAlreadyExists.Error():
		return "exists"
	case err.Error() == ddl.ErrJobsInQueueExceeded.Error():
		return "full"
	case err.Error() == ddl.ErrDBNotExists.Error() || err.Error() == ddl.ErrCollectionNotExists.Error():
		return "notexists"
	}
	if r := kvx.ErrClass(err); r == "conflict" {
		return r
	}
	return "err"
}

// request runs f as one request and records it; the returned channel closes when it returns or its process ends
func (wd *world) request(typ, name, sig string, valid bool, timeout time.Duration, f func(ctx context.Context) (*model.Job, error), after func()) chan struct{} {
	fin := make(chan struct{})
	ctx, cancel := context.WithCancel(context.Background())
	if timeout > 0 {
		ctx, cancel = context.WithTimeout(context.Background(), timeout)
	}
	wd.st.Lock()
	wd.ncall++
	n := wd.ncall
	crashed := wd.crashed
	epoch := wd.epoch
	wd.st.Unlock()
	wd.w.Emit(trace.Ev{"e": "call", "c": n, "typ": typ, "name": name, "sig": sig, "valid": valid, "may": timeout > 0})
	type res struct {
		r, det, detail string
		id             int64
	}
	out := make(chan res, 1)
	go func() {
		var x res
		wd.as(n, func() {
			defer func() {
				if e := recover(); e != nil {
					x = res{r: "panic", det: fmt.Sprint(e)}
				}
			}()
			job, err := f(ctx)
			x.r = class(err)
			if err != nil {
				x.detail = err.Error()
			}
			if job != nil {
				x.id = job.ID
			}
			if x.r == "err" && !valid && (job == nil || job.ID == 0) {
				x.r = "invalid"
			}
		})
		out <- x
	}()
	go func() {
		defer close(fin)
		defer cancel()
		select {
		case x := <-out:
			wd.mu.Lock()
			if wd.gone(epoch) {
				wd.mu.Unlock()
				return
			}
			wd.w.Emit(trace.Ev{"e": "ret", "c": n, "r": x.r, "id": x.id, "detail": x.detail, "info": x.det})
			wd.mu.Unlock()
			if x.r == "ok" && after != nil {
				after()
			}
		case <-crashed:
		case <-time.After(40 * time.Second):
			wd.w.Emit(trace.Ev{"e": "ret", "c": n, "r": "hang", "id": 0, "detail": ""})
		}
	}()
	return fin
}

func validReq(in ddl.CreateSchemaInput) bool {
	if in.DB == "" {
		return false
	}
	seen := map[string]bool{}
	for _, c := range in.Collections {
		if c == "" || seen[c] {
			return false
		}
		seen[c] = true
	}
	for c, is := range in.Indices {
		if len(is) > 0 && !seen[c] {
			return false
		}
		in := map[string]bool{}
		for _, i := range is {
			if i.Name == "" || len(i.Columns) == 0 || in[i.Name] {
				return false
			}
			in[i.Name] = true
		}
	}
	return true
}

// create asks for a schema; once it has been reported created, it is looked at and used
func (wd *world) create(in ddl.CreateSchemaInput, timeout time.Duration, use bool) chan struct{} {
	wd.remember(in)
	d := wd.dom
	typ := "schema"
	return wd.request(typ, in.DB, reqSig(in), validReq(in), timeout, func(ctx context.Context) (*model.Job, error) {
		return d.DDL().CreateSchema(ctx, in)
	}, func() {
		wd.st.Lock()
		wd.oks = append(wd.oks, in.DB)
		wd.st.Unlock()
		if !use {
			return
		}
		wd.view(d, "creator", []string{in.DB}, false)
		wd.use(d, in.DB, in.Collections)
	})
}

// view records what the cache of a process shows
func (wd *world) view(d *domain.Domain, who string, has []string, now bool) {
	if has == nil {
		has = []string{}
	}
	ev := trace.Ev{"e": "view", "who": who, "has": has, "now": now, "ver": 0, "dbs": []dbRec{}}
	res, det := trace.Guard(func() (r string) {
		wd.as(0, func() { r = wd.look(d, ev) })
		return
	})
	ev["r"], ev["detail"] = res, det
	wd.emit(ev)
}

// mine: the driver's own goroutine
func (wd *world) mine() bool {
	g := goid()
	wd.st.Lock()
	defer wd.st.Unlock()
	_, ok := wd.gids[g]
	return ok
}

func (wd *world) look(d *domain.Domain, ev trace.Ev) string {
	wd.st.Lock()
	var names []string
	colls := map[string][]string{}
	for n, ni := range wd.names {
		names = append(names, n)
		for c := range ni.colls {
			colls[n] = append(colls[n], c)
		}
	}
	wd.st.Unlock()
	for _, n := range names {
		if db, err := d.DB(n); err == nil {
			t := db.Txn(false)
			mc := t.StartMetaCache()
			t.Discard()
			// what the users of the collections see
			see := wd.indices(d, mc.Version())
			seen := map[[2]string]map[string]*model.IndexInfo{}
			for n, cs := range colls {
				for _, c := range cs {
					if mc.CheckCollectionExists(n, c) {
						seen[[2]string{n, c}] = see(n, c)
					}
				}
			}
			// the commit it comes from has been recorded
			wd.mu.Lock()
			wd.mu.Unlock()
			ev["ver"], ev["dbs"] = mc.Version(), wd.cacheDBs(mc, func(n, c string) map[string]*model.IndexInfo { return seen[[2]string{n, c}] })
			return "ok"
		}
	}
	return "ok"
}

type cacheView interface {
	Version() int64
	CheckDBExists(string) bool
	CheckCollectionExists(a, b string) bool
	CheckIndexExists(a, b, c string) bool
	CollectionInfo(a, b string) *model.CollectionInfo
}

// indices lists the indexes of a collection as its users see them, nil if the schema is not at that version any more
func (wd *world) indices(d *domain.Domain, ver int64) func(db, coll string) map[string]*model.IndexInfo {
	return func(n, c string) (res map[string]*model.IndexInfo) {
		wrong := func(s string, err error) map[string]*model.IndexInfo {
			return map[string]*model.IndexInfo{"!": {Name: fmt.Sprint("!", s, err)}, "!!": nil}
		}
		db, err := d.DB(n)
		if err != nil {
			return wrong("db", err)
		}
		col, err := db.Collection(c)
		if err != nil {
			return wrong("collection", err)
		}
		t := db.Txn(false)
		defer t.Discard()
		for _, how := range []*txn.Txn{t, nil} {
			iifs, err := col.GetIndices(how)
			if err != nil {
				return wrong("indices", err)
			}
			res = map[string]*model.IndexInfo{}
			for _, i := range iifs {
				if res[i.Name] != nil {
					return wrong("twice", nil)
				}
				cl := *i
				cl.Columns = append([]string{}, i.Columns...)
				res[i.Name] = &cl
				_, err := col.Index(i.Name)
				if err != nil {
					return wrong("index", err)
				}
				// they are ours
				i.Name, i.State, i.Unique = "!mine", osc.StateAbsent, !i.Unique
				for k := range i.Columns {
					i.Columns[k] = "!mine"
				}
			}
			if _, err := col.Index("no such index"); err != dml.ErrIndexNotExists {
				return wrong("index", err)
			}
		}
		t2 := db.Txn(false)
		defer t2.Discard()
		if t.StartMetaCache().Version() != ver || t2.StartMetaCache().Version() != ver {
			return nil
		}
		return
	}
}

func (wd *world) cacheDBs(mc cacheView, indices func(db, coll string) map[string]*model.IndexInfo) []dbRec {
	wd.st.Lock()
	defer wd.st.Unlock()
	cat := wd.cat
	byName := map[string]*model.DBInfo{}
	for _, i := range cat.infos {
		byName[i.Name] = i
	}
	res := []dbRec{}
	for n, ni := range wd.names {
		if !mc.CheckDBExists(n) {
			continue
		}
		r := dbRec{Name: n, Ids: []int64{}}
		ref := byName[n]
		if ref == nil {
			r.Sig = "!unknown"
			res = append(res, r)
			continue
		}
		r.Sig, r.Ids, _ = dbSig(ref, osc.StatePublic, func(c string) *model.CollectionInfo {
			ci := mc.CollectionInfo(n, c)
			if ci != nil && indices != nil {
				if m := indices(n, c); m != nil {
					x := *ci
					x.Indices = m
					return &x
				}
			}
			return ci
		})
		for c := range ni.colls {
			ci := mc.CollectionInfo(n, c)
			if mc.CheckCollectionExists(n, c) != (ci != nil) || (ref.Collections[c] != nil) != (ci != nil) {
				r.Sig += "!exists " + c
			}
			if ci == nil {
				continue
			}
			for i := range ref.Collections[c].Indices {
				if !mc.CheckIndexExists(n, c, i) {
					r.Sig += "!index " + i
				}
			}
		}
		res = append(res, r)
	}
	return res
}

// useSome uses collections of whatever exists, whoever created it and however often the process was started since
func (wd *world) useSome() {
	wd.st.Lock()
	d := wd.dom
	wd.st.Unlock()
	var infos []*model.DBInfo
	wd.as(0, func() { infos = wd.dump().infos })
	n := 0
	for _, i := range infos {
		for c := range i.Collections {
			if n < 3 {
				n++
				wd.use(d, i.Name, []string{c})
			}
			break
		}
	}
}

// use the new collections
func (wd *world) use(d *domain.Domain, name string, colls []string) {
	for i, c := range colls {
		if i > 2 {
			break
		}
		var detail string
		res, det := trace.Guard(func() string {
			db, err := d.DB(name)
			if err != nil {
				detail = "DB: " + err.Error()
				return "err"
			}
			col, err := db.Collection(c)
			if err != nil {
				detail = "Collection: " + err.Error()
				return "err"
			}
			for k := 0; k < 50; k++ {
				var did int64
				wd.as(0, func() { did, err = col.InsertOne(map[string]interface{}{"a": 1}, nil) })
				if err != nil && (kvx.ErrClass(err) == "conflict" || strings.Contains(err.Error(), "ddl conflict")) {
					continue
				}
				if err != nil {
					detail = "InsertOne: " + err.Error()
					return "err"
				}
				var doc map[string]interface{}
				if err = col.GetOne(did, &doc, nil); err != nil {
					detail = "GetOne: " + err.Error()
					return "err"
				}
				return "ok"
			}
			detail = "conflicts"
			return "err"
		})
		wd.st.Lock()
		gone := wd.stop || wd.dom != d
		wd.st.Unlock()
		if gone {
			return
		}
		wd.emit(trace.Ev{"e": "use", "db": name, "coll": c, "r": res, "detail": detail + det})
	}
}

// open the gates
func (wd *world) open() {
	wd.st.Lock()
	wd.gated, wd.onOp, wd.onCommit = false, nil, nil
	for n, ch := range wd.waiting {
		ch <- goOn
		delete(wd.waiting, n)
	}
	wd.st.Unlock()
}

func (wd *world) queued() bool {
	wd.mu.Lock()
	defer wd.mu.Unlock()
	return len(wd.cat.queue) > 0
}

// quiet waits until nothing is left to do
func (wd *world) quiet(limit time.Duration) bool {
	t0 := time.Now()
	for time.Since(t0) < limit {
		wd.mu.Lock()
		n := len(wd.cat.queue)
		over := wd.maxEv < 0
		if n == 0 {
			wd.w.Emit(trace.Ev{"e": "quiet", "r": "ok"})
			wd.mu.Unlock()
			return true
		}
		wd.mu.Unlock()
		if over {
			break
		}
		time.Sleep(5 * time.Millisecond)
	}
	wd.w.Emit(trace.Ev{"e": "quiet", "r": "stuck"})
	return false
}

func (wd *world) close() {
	wd.st.Lock()
	wd.stop = true
	wd.st.Unlock()
	wd.w.Close()
	// goroutines of the code cannot be ended; the store stays open under them, its files go
	os.RemoveAll(wd.loc.Dir)
}
