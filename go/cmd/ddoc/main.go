// ddoc drives document collections (properties D01-D03, L01).
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"
	"sort"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document"
	"github.com/zhiqiangxu/mondis/document/dml"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/document/schema"
	"github.com/zhiqiangxu/mondis/document/txn"
	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/bson/primitive"
	"mondisverif/kvx"
	"mondisverif/trace"
)

var (
	prop = flag.String("prop", "", "")
	seed = flag.Int64("seed", 1, "")
	size = flag.Int("size", 1, "scale factor")
	out  = flag.String("out", "", "")
	in   = flag.String("in", "", "behaviours generated from the specification")
)

// op is one abstract operation.
type op struct {
	E       string `json:"e"`
	T       int    `json:"t"`
	C       int    `json:"c"`
	K       int    `json:"k"`
	Ks      []int  `json:"ks"`
	Upd     bool   `json:"upd"`
	Touched []int  `json:"touched"`
	Colls   []int  `json:"colls"`
	Full    bool   `json:"full"`
	Bad     bool   `json:"bad"`
	Regs    int    `json:"regs"`  // callbacks to register
	Fault   int    `json:"fault"` // fail the n-th store operation of this call (0: none)
	After   bool   `json:"after"` // after it ran
	Mode    string `json:"mode"`
}

// api is what the two document databases have in common.
type api interface {
	begin(upd bool) (interface{}, error)
	commit(t interface{}) error
	discard(t interface{})
	onCancel(t interface{}, f func()) bool
	open(c int) error
	insert(c int, doc bson.D, t interface{}) (int64, error)
	managed(c int, d int64, doc bson.D, t interface{}) error
	update(c int, d int64, doc bson.D, t interface{}) (bool, error)
	upsert(c int, d int64, doc bson.D, t interface{}) (bool, error)
	del(c int, d int64, t interface{}) error
	delall(c int, t interface{}) (int, error)
	get(c int, d int64, t interface{}, how int) (string, error)
	getmany(c int, ds []int64, t interface{}, how int) ([]string, error)
	all(c int, t interface{}, how int) ([]string, error)
	didrange(c int, t interface{}) (int64, int64, error)
	count(c int, t interface{}) (int, error)
	badInsert(c int, t interface{}) error
	stop(crash bool)
	start(db mondis.KVDB)
	class(err error) string
	// setDid decodes the document id a store key of an insert names
	setDid(k []byte) (int64, bool)
}

// ---- documents

func sorted(v interface{}) interface{} {
	switch x := v.(type) {
	case bson.D:
		y := append(bson.D{}, x...)
		sort.SliceStable(y, func(a, b int) bool { return y[a].Key < y[b].Key })
		for i := range y {
			y[i].Value = sorted(y[i].Value)
		}
		return y
	case bson.M:
		y := bson.D{}
		for k, e := range x {
			y = append(y, bson.E{Key: k, Value: e})
		}
		return sorted(y)
	case bson.A:
		y := append(bson.A{}, x...)
		for i := range y {
			y[i] = sorted(y[i])
		}
		return y
	case map[string]interface{}:
		return sorted(bson.M(x))
	case []interface{}:
		return sorted(bson.A(x))
	}
	return v
}

func canon(v interface{}) string {
	b, err := bson.Marshal(sorted(v))
	if err != nil {
		return "unmarshalable"
	}
	return trace.V(b)
}

func canonRaw(b bson.Raw) string {
	var d bson.D
	if err := bson.Unmarshal(b, &d); err != nil {
		return "undecodable"
	}
	return canon(d)
}

var serial int64

func newDoc(rnd *rand.Rand) bson.D {
	s := atomic.AddInt64(&serial, 1)
	if rnd.Intn(20) == 0 {
		return bson.D{}
	}
	d := bson.D{{Key: "n", Value: s}}
	add := func(k string, v interface{}) { d = append(d, bson.E{Key: k, Value: v}) }
	for _, k := range []string{"name", "x", "a.b", "list", "sub", "when", "bin", "", "ключ"} {
		switch rnd.Intn(14) {
		case 0:
			add(k, "text")
		case 1:
			add(k, int32(rnd.Intn(100)-50))
		case 2:
			add(k, []int64{0, math.MaxInt64, math.MinInt64, 1 << 40}[rnd.Intn(4)])
		case 3:
			add(k, []float64{0, -1.5, math.Inf(1), 1e300}[rnd.Intn(4)])
		case 4:
			add(k, nil)
		case 5:
			add(k, bson.A{int32(1), "two", bson.D{{Key: "z", Value: int32(1)}, {Key: "a", Value: true}}})
		case 6:
			add(k, bson.D{{Key: "deep", Value: bson.D{{Key: "q", Value: "r"}}}, {Key: "b", Value: false}})
		case 7:
			add(k, primitive.DateTime(rnd.Int63n(1e12)))
		case 8:
			add(k, primitive.Binary{Data: []byte{0, 1, 255, byte(rnd.Intn(256))}})
		case 9:
			add(k, string(make([]byte, rnd.Intn(300))))
		case 10:
			if rnd.Intn(20) == 0 {
				add(k, primitive.Binary{Data: make([]byte, 40000)})
			}
		}
	}
	return d
}

// ---- the schema-aware database

type modern struct {
	kv     mondis.KVDB
	handle *schema.Handle
	cids   [4]int64
	dbids  [3]int64
	bw     int64
	ver    int64
	colls  map[int]bool
	mu     sync.Mutex
}

func place(c int) (string, string) {
	return []string{"", "db", "db", "db2"}[c], []string{"", "a", "b", "a"}[c]
}

func (m *modern) info(name string, cs []int) *model.DBInfo {
	i := map[string]int64{"db": m.dbids[1], "db2": m.dbids[2]}[name]
	d := &model.DBInfo{ID: i, Name: name, Collections: map[string]*model.CollectionInfo{}}
	for _, c := range cs {
		db, cn := place(c)
		if db == name {
			d.Collections[cn] = &model.CollectionInfo{ID: m.cids[c], Name: cn, Indices: map[string]*model.IndexInfo{}}
			d.CollectionOrder = append(d.CollectionOrder, cn)
		}
	}
	return d
}

func (m *modern) list() (r []int) {
	for c := 1; c <= 3; c++ {
		if m.colls[c] {
			r = append(r, c)
		}
	}
	return
}

func (m *modern) full() *schema.MetaCache {
	dbs := []*model.DBInfo{m.info("db", m.list())}
	if m.colls[3] {
		dbs = append(dbs, m.info("db2", m.list()))
	}
	return schema.NewMetaCache(m.ver, dbs)
}

func (m *modern) start(db mondis.KVDB) {
	m.kv = db
	m.handle = schema.NewHandle()
	trace.Must(m.handle.Update(context.Background(), m.full()), "schema")
	for c := 1; c <= 3; c++ {
		i := 1
		if c == 3 {
			i = 2
		}
		trace.Must(dml.CreateSequence(db, m.dbids[i], m.cids[c], m.bw), "sequence")
	}
}

func (m *modern) stop(crash bool) {
	for c := 1; c <= 3; c++ {
		err := dml.DropSequenceIfExists(m.cids[c])
		if !crash {
			trace.Must(err, "drop sequence")
		}
	}
}

func (m *modern) class(err error) string {
	switch err {
	case dml.ErrCollectionNotExists, dml.ErrDBNotExists:
		return "nocoll"
	case dml.ErrDocNotFound:
		return "notfound"
	case dml.ErrDocExists:
		return "exists"
	case txn.ErrDDLConflict:
		return "ddlconflict"
	}
	if r := kvx.ErrClass(err); r == "ok" || r == "conflict" {
		return r
	}
	return "err"
}

// coll is a collection object, obtained in various ways (it resolves names at each use).
func (m *modern) coll(c int) (*dml.Collection, error) {
	dn, cn := place(c)
	db, err := dml.NewDB(dn, m.kv, m.handle)
	if err != nil {
		return nil, err
	}
	return db.Collection(cn)
}

var handles sync.Map // *modern -> *[4]*dml.Collection, kept across schema changes

func (m *modern) any(c int) (*dml.Collection, error) {
	v, _ := handles.LoadOrStore(m.handle, &sync.Map{})
	mm := v.(*sync.Map)
	if x, ok := mm.Load(c); ok {
		return x.(*dml.Collection), nil
	}
	x, err := m.coll(c)
	if err == nil {
		mm.Store(c, x)
	}
	return x, err
}

func (m *modern) db() *dml.DB {
	db, err := dml.NewDB("db", m.kv, m.handle)
	trace.Must(err, "db")
	return db
}

func (m *modern) begin(upd bool) (interface{}, error)   { return m.db().Txn(upd), nil }
func (m *modern) commit(t interface{}) error            { return t.(*txn.Txn).Commit() }
func (m *modern) discard(t interface{})                 { t.(*txn.Txn).Discard() }
func (m *modern) onCancel(t interface{}, f func()) bool { t.(*txn.Txn).AddCancelFunc(f); return true }
func (m *modern) open(c int) error                      { _, err := m.coll(c); return err }
func tx(t interface{}) *txn.Txn {
	if t == nil {
		return nil
	}
	return t.(*txn.Txn)
}

func (m *modern) insert(c int, doc bson.D, t interface{}) (int64, error) {
	x, err := m.any(c)
	if err != nil {
		return 0, err
	}
	return x.InsertOne(doc, tx(t))
}
func (m *modern) badInsert(c int, t interface{}) error {
	x, err := m.any(c)
	if err != nil {
		return err
	}
	_, err = x.InsertOne(bson.D{{Key: "f", Value: make(chan int)}}, tx(t))
	return err
}
func (m *modern) managed(c int, d int64, doc bson.D, t interface{}) error {
	x, err := m.any(c)
	if err != nil {
		return err
	}
	return x.InsertOneManaged(d, doc, tx(t))
}
func (m *modern) update(c int, d int64, doc bson.D, t interface{}) (bool, error) {
	x, err := m.any(c)
	if err != nil {
		return false, err
	}
	return x.UpdateOne(d, doc, tx(t))
}
func (m *modern) upsert(c int, d int64, doc bson.D, t interface{}) (bool, error) {
	x, err := m.any(c)
	if err != nil {
		return false, err
	}
	return x.UpsertOne(d, doc, tx(t))
}
func (m *modern) del(c int, d int64, t interface{}) error {
	x, err := m.any(c)
	if err != nil {
		return err
	}
	return x.DeleteOne(d, tx(t))
}
func (m *modern) delall(c int, t interface{}) (int, error) {
	x, err := m.any(c)
	if err != nil {
		return 0, err
	}
	return x.DeleteAll(tx(t))
}
func (m *modern) get(c int, d int64, t interface{}, how int) (string, error) {
	x, err := m.any(c)
	if err != nil {
		return "", err
	}
	switch how % 3 {
	case 0:
		var r bson.Raw
		err = x.GetOne(d, &r, tx(t))
		return canonRaw(r), err
	case 1:
		var r bson.D
		err = x.GetOne(d, &r, tx(t))
		return canon(r), err
	}
	var r bson.M
	err = x.GetOne(d, &r, tx(t))
	return canon(r), err
}
func (m *modern) getmany(c int, ds []int64, t interface{}, how int) ([]string, error) {
	x, err := m.any(c)
	if err != nil {
		return nil, err
	}
	return slices(how, func(p interface{}) error { return x.GetMany(ds, p, tx(t)) })
}
func (m *modern) all(c int, t interface{}, how int) ([]string, error) {
	x, err := m.any(c)
	if err != nil {
		return nil, err
	}
	return slices(how, func(p interface{}) error { return x.GetAll(p, tx(t)) })
}
func slices(how int, f func(p interface{}) error) (res []string, err error) {
	if how%2 == 0 {
		var r []bson.Raw
		err = f(&r)
		for _, x := range r {
			res = append(res, canonRaw(x))
		}
		return
	}
	var r []bson.D
	err = f(&r)
	for _, x := range r {
		res = append(res, canon(x))
	}
	return
}
func (m *modern) didrange(c int, t interface{}) (int64, int64, error) {
	x, err := m.any(c)
	if err != nil {
		return 0, 0, err
	}
	return x.GetDidRange(tx(t))
}
func (m *modern) count(c int, t interface{}) (int, error) {
	x, err := m.any(c)
	if err != nil {
		return 0, err
	}
	return x.Count(tx(t))
}
func (m *modern) setDid(k []byte) (int64, bool) {
	_, d, err := dml.DecodeCollectionDocumentKey(k)
	return d, err == nil
}

// schema makes the next schema version current, as a recorded change or as a whole.
func (m *modern) schema(o op, ev trace.Ev) {
	want := map[int]bool{}
	for _, c := range o.Colls {
		want[c] = true
	}
	old := m.handle.Get()
	grown, full := []int{}, o.Full
	for c := 1; c <= 3; c++ {
		if want[c] && !m.colls[c] && c == 3 {
			grown = append(grown, c)
		} else if want[c] != m.colls[c] {
			full = true // changes that no recorded change can express
		}
	}
	m.ver++
	if full {
		m.colls = want
		trace.Must(m.handle.Update(context.Background(), m.full()), "schema")
		o.Touched = append([]int{}, o.Touched...)
	} else {
		d := &model.SchemaDiff{Version: m.ver, Type: model.ActionCreateSchema, Arg: m.info("db2", grown)}
		if len(grown) == 0 {
			d.Arg = &model.DBInfo{Name: fmt.Sprintf("other%d", m.ver), Collections: map[string]*model.CollectionInfo{}}
		}
		for _, c := range o.Touched {
			d.CollectionIDs = append(d.CollectionIDs, m.cids[c])
		}
		if o.K%3 == 0 {
			d.CollectionIDs = append(d.CollectionIDs, 987654321)
		}
		b, err := d.Encode()
		trace.Must(err, "encode diff")
		var d2 model.SchemaDiff
		trace.Must(d2.Decode(b), "decode diff")
		n := old.Clone()
		trace.Must(n.ApplyDiffs([]*model.SchemaDiff{&d2}), "apply diff")
		m.colls = want
		trace.Must(m.handle.Update(context.Background(), n), "schema")
	}
	if o.Touched == nil {
		o.Touched = []int{}
	}
	l := m.list()
	if l == nil {
		l = []int{}
	}
	ev["touched"], ev["colls"], ev["full"] = o.Touched, l, full
}

// ---- the embedded legacy database

type legacy struct {
	kv    mondis.KVDB
	db    *document.DB
	names [4]string
}

func (l *legacy) start(db mondis.KVDB) { l.kv = db; l.db = document.NewDB(db) }
func (l *legacy) stop(crash bool)      { l.db.Close() }
func (l *legacy) class(err error) string {
	switch err {
	case document.ErrDocNotFound:
		return "notfound"
	case document.ErrDocIDExists:
		return "exists"
	}
	if r := kvx.ErrClass(err); r == "ok" || r == "conflict" {
		return r
	}
	return "err"
}
func (l *legacy) begin(upd bool) (interface{}, error)   { return l.kv.NewTransaction(upd), nil }
func (l *legacy) commit(t interface{}) error            { return t.(mondis.ProviderTxn).Commit() }
func (l *legacy) discard(t interface{})                 { t.(mondis.ProviderTxn).Discard() }
func (l *legacy) onCancel(t interface{}, f func()) bool { return false }
func (l *legacy) open(c int) error                      { _, err := l.db.Collection(l.names[c]); return err }
func ptx(t interface{}) mondis.ProviderTxn {
	if t == nil {
		return nil
	}
	return t.(mondis.ProviderTxn)
}
func (l *legacy) coll(c int) *document.Collection {
	x, err := l.db.Collection(l.names[c])
	if err != nil {
		panic(fmt.Sprintf("collection: %v", err))
	}
	return x
}
func mdoc(d bson.D) bson.M {
	m := bson.M{}
	for _, e := range d {
		m[e.Key] = e.Value
	}
	return m
}
func (l *legacy) insert(c int, doc bson.D, t interface{}) (int64, error) {
	return l.coll(c).InsertOne(mdoc(doc), ptx(t))
}
func (l *legacy) badInsert(c int, t interface{}) error {
	_, err := l.coll(c).InsertOne(bson.M{"f": make(chan int)}, ptx(t))
	return err
}
func (l *legacy) managed(c int, d int64, doc bson.D, t interface{}) error {
	return l.coll(c).InsertOneManaged(d, mdoc(doc), ptx(t))
}
func (l *legacy) update(c int, d int64, doc bson.D, t interface{}) (bool, error) {
	return l.coll(c).UpdateOne(d, mdoc(doc), ptx(t))
}
func (l *legacy) upsert(c int, d int64, doc bson.D, t interface{}) (bool, error) {
	return l.coll(c).UpsertOne(d, mdoc(doc), ptx(t))
}
func (l *legacy) del(c int, d int64, t interface{}) error { return l.coll(c).DeleteOne(d, ptx(t)) }
func (l *legacy) delall(c int, t interface{}) (int, error) {
	return l.coll(c).DeleteAll(ptx(t))
}
func (l *legacy) get(c int, d int64, t interface{}, how int) (string, error) {
	m, err := l.coll(c).GetOne(d, ptx(t))
	return canon(m), err
}
func (l *legacy) getmany(c int, ds []int64, t interface{}, how int) (res []string, err error) {
	ms, err := l.coll(c).GetMany(ds, ptx(t))
	for _, m := range ms {
		res = append(res, canon(m))
	}
	return
}
func (l *legacy) all(c int, t interface{}, how int) ([]string, error) { panic("harness: not offered") }
func (l *legacy) didrange(c int, t interface{}) (int64, int64, error) { panic("harness: not offered") }
func (l *legacy) count(c int, t interface{}) (int, error)             { return l.coll(c).Count(ptx(t)) }
func (l *legacy) schema(o op, w *trace.W)                             {}
func (l *legacy) setDid(k []byte) (int64, bool) {
	_, d, err := dml.DecodeCollectionDocumentKey(k) // the same layout
	return d, err == nil
}

// ---- execution

type tstate struct {
	t       interface{}
	upd     bool
	reg     int
	cancels int
}

type runner struct {
	w     *trace.W
	l     *kvx.Local
	wrap  *kvx.Wrap
	a     api
	mod   *modern
	rnd   *rand.Rand
	dids  []int64
	autos []int64
	txns  map[int]*tstate
	dead  bool

	// fault injection: the fault-th operation from now on
	mu     sync.Mutex
	fault  int
	after  bool
	fired  string // none before after
	main   int64  // the first transaction begun by the current call
	setKey []byte
	conc   bool
}

func (r *runner) hook(c kvx.Call) error {
	r.mu.Lock()
	defer r.mu.Unlock()
	if c.Op == "begin" {
		if c.After {
			return nil
		}
		if r.main == 0 {
			r.main = c.Txn
		}
		return nil
	}
	if c.Op == "set" && !c.After && c.Txn == r.main {
		r.setKey = append([]byte{}, c.Key...)
	}
	if r.fault == 0 || c.After != r.after || (c.After && c.Err != nil) {
		return nil
	}
	r.fault--
	if r.fault > 0 {
		return nil
	}
	r.fired = "before"
	if c.After && c.Op == "commit" && c.Txn == r.main {
		r.fired = "after"
	}
	return kvx.ErrInjected
}

func (r *runner) arm(o op) {
	r.mu.Lock()
	r.fault, r.after, r.fired, r.main, r.setKey = o.Fault, o.After, "none", 0, nil
	r.mu.Unlock()
}

var explicit = []int64{1, 2, 3, 4, 5, 6, 7, 0, -1, math.MinInt64, math.MaxInt64, 255, 256, 1 << 32, -256}

func newRunner(w *trace.W, rnd *rand.Rand, kind, how string, colls []int) *runner {
	ev := trace.Ev{"prop": *prop, "kind": kind, "how": how, "colls": colls}
	r := &runner{w: w, rnd: rnd, l: kvx.OpenLocal("badger"), txns: map[int]*tstate{}, fired: "none"}
	r.wrap = &kvx.Wrap{KVDB: r.l.KV, Hook: r.hook}
	for k := 0; k < 4+rnd.Intn(5); k++ {
		r.dids = append(r.dids, explicit[rnd.Intn(len(explicit))])
	}
	if kind == "modern" {
		sets := [][4]int64{{0, 1, 2, 3}, {0, -1, 0, 1}, {0, math.MaxInt64, math.MinInt64, 0}, {0, 255, 256, 257}, {0, 7, 7 << 8, 7 << 16}, {0, 3, 1, 2}, {0, 254, 255, 253}}
		cs := map[int]bool{}
		for _, c := range colls {
			cs[c] = true
		}
		r.mod = &modern{cids: sets[rnd.Intn(len(sets))], dbids: [3]int64{0, 11, 12}, bw: int64(1 + rnd.Intn(4)), ver: int64(rnd.Intn(3) * 50), colls: cs}
		ev["cids"] = fmt.Sprint(r.mod.cids)
		r.a = r.mod
	} else {
		r.a = &legacy{names: [][4]string{{"", "a", "ab", "b"}, {"", "a", "a\x00", "\xff"}, {"", "x", "X", "collection2"}}[rnd.Intn(3)]}
	}
	w.Reset(ev)
	r.a.start(r.wrap)
	return r
}

func (r *runner) did(k int) int64 {
	if k < 0 || (k%3 == 2 && len(r.autos) > 0) {
		if k < 0 {
			k = -k
		}
		return r.autos[k%len(r.autos)]
	}
	return r.dids[k%len(r.dids)]
}

func (r *runner) emit(ev trace.Ev) {
	r.w.Emit(ev)
	r.w.Flush()
}

func (r *runner) run(o op) {
	if r.dead {
		return
	}
	var t interface{}
	ts := r.txns[o.T]
	switch o.E {
	case "begin":
		if ts != nil {
			return
		}
		x, err := r.a.begin(o.Upd)
		if err != nil {
			return
		}
		r.txns[o.T] = &tstate{t: x, upd: o.Upd}
		r.emit(trace.Ev{"e": "begin", "t": o.T, "upd": o.Upd})
		return
	case "schema":
		if r.mod != nil {
			ev := trace.Ev{"e": "schema"}
			r.guard(ev, func() string { r.mod.schema(o, ev); return "ok" })
			r.emit(ev)
		}
		return
	case "restart":
		r.restart(o.Mode)
		return
	case "open":
		ev := trace.Ev{"e": "open", "c": o.C}
		r.guard(ev, func() string { return r.a.class(r.a.open(o.C)) })
		r.emit(ev)
		return
	}
	if o.T != 0 {
		if ts == nil || ts.t == nil {
			return
		}
		t = ts.t
	}
	ev := trace.Ev{"e": o.E, "t": o.T}
	switch o.E {
	case "commit":
		r.arm(o)
		if o.Fault > 0 {
			r.mu.Lock()
			r.fault = 1
			r.main = -1
			r.mu.Unlock()
		}
		r.guard(ev, func() string { return r.a.class(r.a.commit(t)) })
		may := r.disarm()
		if may == "before" && o.After {
			may = "after"
		}
		ev["may"], ev["reg"], ev["cancels"] = may, ts.reg, ts.cancels
		r.emit(ev)
		if ev["r"] == "ddlconflict" && !r.dead && r.rnd.Intn(2) == 0 {
			// it stays rejected, and what was called back was called back
			again := trace.Ev{"e": "recommit", "t": o.T, "reg": ts.reg}
			r.guard(again, func() string { return r.a.class(r.a.commit(t)) })
			again["cancels"] = ts.cancels
			r.emit(again)
		}
		if !r.dead {
			r.a.discard(t)
		}
		ts.t = nil
		return
	case "discard":
		r.guard(ev, func() string { r.a.discard(t); return "ok" })
		ev["cancels"] = ts.cancels
		r.emit(ev)
		ts.t = nil
		return
	}
	for k := 0; k < o.Regs && t != nil && ts.upd; k++ {
		if r.a.onCancel(t, func() { ts.cancels++ }) {
			ts.reg++
		}
	}
	if r.mod != nil {
		if _, err := r.mod.any(o.C); err != nil {
			return // no collection object to call
		}
	} else if r.a.open(o.C) != nil {
		return
	}
	r.arm(o)
	ev = r.exec(o, t)
	may := r.disarm()
	ev["may"] = may
	if ev["e"] == "insert" && ev["r"] != "ok" && may == "after" {
		d, ok := r.a.setDid(r.setKey)
		if ok {
			ev["d"] = trace.I64(d)
		}
	}
	r.emit(ev)
	if t != nil && may != "none" && !r.dead {
		r.a.discard(t)
		r.emit(trace.Ev{"e": "discard", "t": o.T, "cancels": ts.cancels, "r": "ok"})
		ts.t = nil
	}
}

func (r *runner) disarm() string {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.fault = 0
	f := r.fired
	r.fired = "none"
	return f
}

func (r *runner) guard(ev trace.Ev, f func() string) {
	res, detail := trace.Guard(f)
	if res == "hang" || res == "panic" {
		r.dead = true
		if res == "hang" { // the call may still write into ev
			e := ev["e"]
			for k := range ev {
				delete(ev, k)
			}
			ev["e"], ev["op"] = "hung", e
		}
	}
	ev["r"] = res
	if detail != "" {
		ev["detail"] = detail
	}
}

// exec performs one document operation.
func (r *runner) exec(o op, t interface{}) trace.Ev {
	ev := trace.Ev{"e": o.E, "t": o.T, "c": o.C, "conc": r.conc, "bad": o.Bad, "may": "none"}
	var f func() string
	d := int64(0)
	switch o.E {
	case "managed", "update", "upsert", "delete", "get":
		d = r.did(o.K)
		ev["d"] = trace.I64(d)
	}
	var doc bson.D
	switch o.E {
	case "insert", "managed", "update", "upsert":
		r.mu.Lock()
		doc = newDoc(r.rnd)
		r.mu.Unlock()
		ev["v"] = canon(doc)
	}
	how := o.K + o.C + o.T
	c := o.C
	vs := []string{}
	switch o.E {
	case "insert":
		f = func() string {
			if o.Bad {
				return r.a.class(r.a.badInsert(c, t))
			}
			x, err := r.a.insert(c, doc, t)
			ev["d"] = trace.I64(x)
			if err == nil {
				r.mu.Lock()
				r.autos = append(r.autos, x)
				r.mu.Unlock()
			}
			return r.a.class(err)
		}
	case "managed":
		f = func() string { return r.a.class(r.a.managed(c, d, doc, t)) }
	case "update":
		f = func() string {
			b, err := r.a.update(c, d, doc, t)
			ev["exists"] = b
			return r.a.class(err)
		}
	case "upsert":
		f = func() string {
			b, err := r.a.upsert(c, d, doc, t)
			ev["isnew"] = b
			return r.a.class(err)
		}
	case "delete":
		f = func() string { return r.a.class(r.a.del(c, d, t)) }
	case "delall":
		f = func() string {
			n, err := r.a.delall(c, t)
			ev["n"] = n
			return r.a.class(err)
		}
	case "get":
		f = func() string {
			v, err := r.a.get(c, d, t, how)
			ev["v"] = v
			return r.a.class(err)
		}
	case "getmany":
		ds := []int64{}
		ls := [][]int64{}
		for _, k := range o.Ks {
			ds = append(ds, r.did(k))
			ls = append(ls, trace.I64(r.did(k)))
		}
		ev["ds"] = ls
		f = func() string {
			x, err := r.a.getmany(c, ds, t, how)
			ev["vs"] = append(vs, x...)
			return r.a.class(err)
		}
	case "all":
		f = func() string {
			x, err := r.a.all(c, t, how)
			ev["vs"] = append(vs, x...)
			return r.a.class(err)
		}
	case "range":
		f = func() string {
			a, b, err := r.a.didrange(c, t)
			ev["min"], ev["max"] = trace.I64(a), trace.I64(b)
			return r.a.class(err)
		}
	case "count":
		f = func() string {
			n, err := r.a.count(c, t)
			ev["n"] = n
			return r.a.class(err)
		}
	default:
		trace.Fatal("unknown operation %+v", o)
	}
	r.guard(ev, f)
	return ev
}

func (r *runner) restart(mode string) {
	for k, ts := range r.txns {
		if ts.t != nil && mode == "clean" {
			r.a.discard(ts.t)
		}
		delete(r.txns, k)
	}
	if mode == "clean" {
		r.a.stop(false)
		trace.Must(r.l.Reopen("clean"), "reopen")
	} else {
		img := trace.Scratch("img")
		os.RemoveAll(img)
		kvx.CopyDir(r.l.Dir, img)
		os.Remove(img + "/LOCK")
		r.a.stop(true)
		old, dir := r.l.KV, r.l.Dir
		r.l.KV, r.l.Dir = kvx.NewKV("badger"), img
		trace.Must(r.l.KV.Open(mondis.KVOption{Dir: img}), "open image")
		go func() { time.Sleep(100 * time.Millisecond); old.Close(); os.RemoveAll(dir) }()
	}
	r.wrap = &kvx.Wrap{KVDB: r.l.KV, Hook: r.hook}
	r.a.start(r.wrap)
	r.emit(trace.Ev{"e": "restart", "mode": mode})
}

// look reads everything.
func (r *runner) look() {
	for c := 1; c <= 3; c++ {
		r.run(op{E: "count", C: c})
		if r.mod != nil {
			r.run(op{E: "all", C: c, K: r.rnd.Intn(2)})
			r.run(op{E: "range", C: c})
		}
		for k := range r.dids {
			r.run(op{E: "get", C: c, K: k})
		}
		for k := 0; k < len(r.autos) && k < 6; k++ {
			r.run(op{E: "get", C: c, K: -1 - r.rnd.Intn(100)})
		}
	}
}

func (r *runner) end() {
	r.look()
	if r.dead {
		if r.mod != nil {
			trace.Guard(func() string { r.mod.stop(true); return "" })
		}
		return
	}
	for k, ts := range r.txns {
		if ts.t != nil {
			r.a.discard(ts.t)
		}
		delete(r.txns, k)
	}
	r.a.stop(false)
	trace.Must(r.l.Close(), "close")
}

func replay(w *trace.W, rnd *rand.Rand, kind string, ops []op) {
	colls := []int{1, 2, 3}
	r := newRunner(w, rnd, kind, "generated", colls)
	for _, o := range ops {
		switch o.E {
		case "getmany":
			o.Ks = []int{o.K, o.K + 1}[:1+rnd.Intn(2)]
		case "all", "range":
			if kind == "legacy" {
				continue
			}
		}
		if o.E != "begin" && o.T != 0 {
			o.Regs = rnd.Intn(6) / 5
		}
		r.run(o)
	}
	r.end()
}

func random(w *trace.W, rnd *rand.Rand, kind string, n int) {
	colls := []int{1, 2, 3}
	if kind == "modern" && rnd.Intn(3) == 0 {
		colls = []int{1, 2}
	}
	r := newRunner(w, rnd, kind, "random", colls)
	pf := []float64{0, 0, 0.05, 0.15}[rnd.Intn(4)]
	maxT := 0
	maxOpen := rnd.Intn(4)
	ps := []int{0, 2, 6}[rnd.Intn(3)]
	nc := 1 + rnd.Intn(3)
	for k := 0; k < n && !r.dead; k++ {
		var open []int
		for id, ts := range r.txns {
			if ts.t != nil {
				open = append(open, id)
			}
		}
		sort.Ints(open)
		t := 0
		if len(open) > 0 && rnd.Intn(4) > 0 {
			t = open[rnd.Intn(len(open))]
		}
		o := op{T: t, C: 1 + rnd.Intn(nc), K: rnd.Intn(12), Regs: rnd.Intn(8) / 7}
		if rnd.Float64() < pf {
			o.Fault, o.After = 1+rnd.Intn(6), rnd.Intn(2) == 0
		}
		x := rnd.Intn(100)
		switch {
		case x < 8 && len(open) < maxOpen:
			maxT++
			r.run(op{E: "begin", T: maxT, Upd: rnd.Intn(6) > 0})
			continue
		case x < 16 && t != 0:
			o.E = "commit"
			if rnd.Float64() < pf {
				o.Fault = 1
			} else {
				o.Fault = 0
			}
		case x < 17 && t != 0:
			o.E = "discard"
		case x < 17+ps && kind == "modern":
			o.E = "schema"
			o.Full = rnd.Intn(6) == 0
			for c := 1; c <= 3; c++ {
				if rnd.Intn(4) == 0 {
					o.Touched = append(o.Touched, c)
				}
				in := r.mod.colls[c]
				if rnd.Intn(8) == 0 {
					if in != !in && (c == 3 || rnd.Intn(3) == 0) {
						in = !in
						o.Touched = append(o.Touched, c)
					}
				}
				if in {
					o.Colls = append(o.Colls, c)
				}
			}
			reps := 1
			if rnd.Intn(20) == 0 {
				reps = 97 + rnd.Intn(8)
			}
			for j := 0; j < reps; j++ {
				r.run(o)
				o.Touched = nil
				o.Full = false
			}
			continue
		case x < 24:
			o.E = "count"
		case x < 40:
			o.E = "insert"
			o.Bad = rnd.Intn(25) == 0
		case x < 47:
			o.E = "managed"
		case x < 54:
			o.E = "update"
		case x < 61:
			o.E = "upsert"
		case x < 68:
			o.E = "delete"
		case x < 70:
			o.E = "delall"
		case x < 80:
			o.E = "get"
		case x < 86:
			o.E = "getmany"
			for j := 0; j < rnd.Intn(4); j++ {
				o.Ks = append(o.Ks, rnd.Intn(12))
			}
		case x < 91 && kind == "modern":
			o.E = "all"
		case x < 96 && kind == "modern":
			o.E = "range"
		case x < 98:
			o.E = "open"
		case rnd.Intn(3) == 0:
			o.E, o.Mode = "restart", []string{"clean", "crash"}[rnd.Intn(2)]
		default:
			continue
		}
		if o.Bad {
			o.Fault = 0
		}
		r.run(o)
	}
	r.end()
}

// touched runs transactions consisting of one operation (or two), with a schema change before the commit:
// every kind of operation, on a document that exists and on one that does not, for every set of touched collections
func touched(w *trace.W, rnd *rand.Rand) {
	colls := []int{1, 2, 3}
	r := newRunner(w, rnd, "modern", "touched", colls)
	for c := 1; c <= 2; c++ {
		r.run(op{E: "upsert", C: c, K: 0})
	}
	maxT := 0
	kinds := []string{"insert", "managed", "update", "upsert", "delete", "delall", "get", "getmany", "all", "range", "count"}
	rnd.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	for _, e := range kinds {
		for k := 0; k < 2; k++ { // document 0 exists, 1 does not
			for _, tc := range [][]int{{1}, {2}, {1, 2}, {}} {
				if r.dead {
					return
				}
				maxT++
				r.run(op{E: "begin", T: maxT, Upd: true})
				c := 1 + rnd.Intn(2)
				o := op{E: e, T: maxT, C: c, K: k, Ks: []int{k}}
				if rnd.Intn(4) == 0 {
					r.run(op{E: "get", T: maxT, C: 3 - c, K: rnd.Intn(2)})
				}
				r.run(o)
				if rnd.Intn(6) == 0 {
					r.run(op{E: "insert", T: maxT, C: 3, Regs: 1})
				}
				r.run(op{E: "schema", Touched: tc, Colls: colls})
				for j := rnd.Intn(3); j > 0; j-- {
					r.run(op{E: "schema", Colls: colls})
				}
				r.run(op{E: "commit", T: maxT})
				for c := 1; c <= 2; c++ {
					if rnd.Intn(3) == 0 || e == "delall" {
						r.run(op{E: "upsert", C: c, K: 0})
					}
					if rnd.Intn(3) == 0 || k == 1 {
						r.run(op{E: "delete", C: c, K: 1})
					}
				}
			}
		}
	}
	r.end()
}

var nPopulated int64

// populated: more documents than a store reads ahead
func populated(w *trace.W, rnd *rand.Rand, kind string) {
	r := newRunner(w, rnd, kind, "populated", []int{1, 2, 3})
	n := 110 + rnd.Intn(200)
	if atomic.AddInt64(&nPopulated, 1) == 1 && (*prop)[2] == '1' {
		n = 1030
	}
	for _, c := range []int{1, 2} {
		if c == 2 {
			n = rnd.Intn(130)
		}
		r.run(op{E: "begin", T: c, Upd: true})
		for k := 0; k < n; k++ {
			r.run(op{E: "insert", T: c, C: c})
		}
		r.run(op{E: "commit", T: c})
	}
	look := func() {
		for _, e := range []string{"count", "all", "range"} {
			if e == "count" || kind == "modern" {
				for _, c := range []int{1, 2} {
					r.run(op{E: e, C: c, K: rnd.Intn(2)})
				}
			}
		}
	}
	look()
	for k := 0; k < 40; k++ {
		r.run(op{E: []string{"delete", "get", "update", "upsert", "insert"}[rnd.Intn(5)], C: 1 + rnd.Intn(2), K: -1 - rnd.Intn(400)})
	}
	look()
	r.run(op{E: "begin", T: 3, Upd: true})
	r.run(op{E: "delall", T: 3, C: 1})
	r.run(op{E: "count", T: 3, C: 1})
	r.run(op{E: []string{"commit", "discard"}[rnd.Intn(2)], T: 3})
	look()
	r.run(op{E: "delall", C: 1})
	look()
	r.restart([]string{"clean", "crash"}[rnd.Intn(2)])
	look()
	r.end()
}

// concurrent callers on their own documents; inserts share the collection's ids
func concurrent(w *trace.W, rnd *rand.Rand, kind string, n int) {
	r := newRunner(w, rnd, kind, "concurrent", []int{1, 2, 3})
	r.conc = true
	var wg sync.WaitGroup
	for g := 0; g < 6; g++ {
		wg.Add(1)
		x := rand.New(rand.NewSource(rnd.Int63()))
		g := g
		go func() {
			defer wg.Done()
			var own []int64
			for k := 0; k < n; k++ {
				c := 1 + g%2
				var ev trace.Ev
				y := x.Intn(10)
				d := int64(1000000 + g*100 + x.Intn(5))
				if len(own) > 0 && x.Intn(2) == 0 {
					d = own[x.Intn(len(own))]
				}
				emit := func(e string, f func(ev trace.Ev) string) {
					ev = trace.Ev{"e": e, "t": 0, "c": c, "conc": true, "bad": false, "may": "none", "d": trace.I64(d)}
					res, detail := trace.Guard(func() string { return f(ev) })
					ev["r"] = res
					if detail != "" {
						ev["detail"] = detail
					}
					w.Emit(ev)
				}
				doc := newDoc(x)
				switch {
				case y < 4:
					emit("insert", func(ev trace.Ev) string {
						v, err := r.a.insert(c, doc, nil)
						ev["d"], ev["v"] = trace.I64(v), canon(doc)
						if err == nil {
							own = append(own, v)
						}
						return r.a.class(err)
					})
				case y < 6:
					emit("upsert", func(ev trace.Ev) string {
						b, err := r.a.upsert(c, d, doc, nil)
						ev["isnew"], ev["v"] = b, canon(doc)
						return r.a.class(err)
					})
				case y < 7:
					emit("update", func(ev trace.Ev) string {
						b, err := r.a.update(c, d, doc, nil)
						ev["exists"], ev["v"] = b, canon(doc)
						return r.a.class(err)
					})
				case y < 8:
					emit("delete", func(ev trace.Ev) string { return r.a.class(r.a.del(c, d, nil)) })
				default:
					emit("get", func(ev trace.Ev) string {
						v, err := r.a.get(c, d, nil, k)
						ev["v"] = v
						return r.a.class(err)
					})
				}
				if ev["r"] == "hang" || ev["r"] == "panic" {
					r.dead = true
					return
				}
				if k%20 == 19 && ev["e"] == "insert" && ev["r"] == "ok" {
					r.mu.Lock()
					r.autos = append(r.autos, own...)
					r.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	r.conc = false
	if rnd.Intn(2) == 0 && !r.dead {
		r.restart([]string{"crash", "clean"}[rnd.Intn(2)])
	}
	for k := 0; k < 6; k++ {
		r.run(op{E: "insert", C: 1 + k%2})
	}
	r.end()
}

func main() {
	flag.Parse()
	w := trace.Open(*out)
	rnd := rand.New(rand.NewSource(*seed*1000003 + int64((*prop)[0])*100 + int64((*prop)[2])))
	kind := "modern"
	if (*prop)[0] == 'L' {
		kind = "legacy"
	}
	if *in != "" {
		f, err := os.Open(*in)
		trace.Must(err, "behaviours")
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			var ops []op
			trace.Must(json.Unmarshal(sc.Bytes(), &ops), "behaviour")
			replay(w, rnd, kind, ops)
		}
	}
	for k := 0; k < 2**size && kind == "modern"; k++ {
		touched(w, rnd)
	}
	for k := 0; k < 60**size; k++ {
		random(w, rnd, kind, 60)
	}
	for k := 0; k < 2**size; k++ {
		populated(w, rnd, kind)
	}
	for k := 0; k < 6**size; k++ {
		concurrent(w, rnd, kind, 25)
	}
	w.Close()
}
