// dmeta drives the catalogue (document/meta) over a real store and records what it reports.
package main

import (
	"bufio"
	"encoding/json"
	"errors"
	"flag"
	"fmt"
	"math"
	"math/rand"
	"os"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/document/meta"
	"github.com/zhiqiangxu/mondis/document/model"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/util/osc"

	"mondisverif/kvx"
	"mondisverif/trace"
)

var (
	prop = flag.String("prop", "M05", "")
	seed = flag.Int64("seed", 1, "")
	out  = flag.String("out", "", "")
	in   = flag.String("in", "", "")
	size = flag.Int("size", 1, "")
)

type op struct {
	E   string `json:"e"`
	DB  int    `json:"db"`
	ID  int    `json:"id"`
	D   string `json:"d"`
	Q   string `json:"q"`
	I   int    `json:"i"`
	Upd bool   `json:"upd"`
}

// the ids and names behind the numbers of a program
var idSets = [][]int64{
	{1, 2, 3, 4, 5, 6}, {1, 10, 11, 111, 100, 2}, {1 << 40, 1<<40 + 1, 1, 255, 256, 65536}, {math.MaxInt64, 1, 0, math.MaxInt64 - 1, 7, 77},
	{-1, 1, 0, math.MinInt64, 11, -11},
}
var names = []string{"", "a", "b", "db:1", "collectionInfo:1", "\"q\"\\", "\x00", "ünï", "long-long-long-long-long-long-long-long-long-long-name", "dbs"}

type runner struct {
	w    *trace.W
	rnd  *rand.Rand
	l    *kvx.Local
	ids  []int64
	txn  mondis.ProviderTxn
	upd  bool
	dead bool
}

func (r *runner) name() string { return names[r.rnd.Intn(len(names))] }
func (r *runner) idx() *model.IndexInfo {
	i := &model.IndexInfo{ID: r.rnd.Int63n(100), Name: r.name(), Unique: r.rnd.Intn(2) == 0, State: osc.SchemaState(r.rnd.Intn(4))}
	for k := r.rnd.Intn(3); k > 0; k-- {
		i.Columns = append(i.Columns, r.name())
	}
	if r.rnd.Intn(4) == 0 {
		i.JobRedundant = &model.IndexInfoRedundant{Collection: r.name(), DB: r.name(), CID: r.rnd.Int63()}
	}
	return i
}
func (r *runner) coll(id int64) *model.CollectionInfo {
	c := &model.CollectionInfo{ID: id, Name: r.name(), State: osc.SchemaState(r.rnd.Intn(4))}
	if r.rnd.Intn(3) > 0 {
		c.Indices = map[string]*model.IndexInfo{}
		for k := r.rnd.Intn(3); k > 0; k-- {
			i := r.idx()
			if c.Indices[i.Name] == nil {
				c.IndexOrder = append(c.IndexOrder, i.Name)
			}
			c.Indices[i.Name] = i
		}
	}
	return c
}
func (r *runner) db(id int64) *model.DBInfo {
	d := &model.DBInfo{ID: id, Name: r.name(), State: osc.SchemaState(r.rnd.Intn(4))}
	if r.rnd.Intn(3) > 0 {
		d.Collections = map[string]*model.CollectionInfo{}
		for k := r.rnd.Intn(3); k > 0; k-- {
			c := r.coll(r.rnd.Int63n(1000))
			if d.Collections[c.Name] == nil {
				d.CollectionOrder = append(d.CollectionOrder, c.Name)
			}
			d.Collections[c.Name] = c
		}
	}
	return d
}
func (r *runner) arg() interface{} {
	switch r.rnd.Intn(4) {
	case 0:
		return r.db(r.rnd.Int63())
	case 1:
		return r.idx()
	case 2:
		return nil
	}
	return map[string]interface{}{"x": r.name()}
}
func (r *runner) job(id int64) *model.Job {
	j := &model.Job{ID: id, Type: model.ActionType(r.rnd.Intn(9)), State: model.JobState(r.rnd.Intn(8)), ErrorCount: r.rnd.Int63n(5),
		SchemaState: osc.SchemaState(r.rnd.Intn(4)), StartTS: uint64(r.rnd.Int63()) << uint(r.rnd.Intn(2)), DependencyID: r.rnd.Int63n(9), Arg: r.arg()}
	if r.rnd.Intn(4) == 0 {
		j.Error = errors.New("failed: " + r.name())
	}
	return j
}
func (r *runner) diff(v int64) *model.SchemaDiff {
	d := &model.SchemaDiff{Version: v, Type: model.ActionType(r.rnd.Intn(9)), Arg: r.arg()}
	for k := r.rnd.Intn(4); k > 0; k-- {
		d.CollectionIDs = append(d.CollectionIDs, r.ids[r.rnd.Intn(len(r.ids))])
	}
	return d
}

func js(x interface{}) string {
	b, err := json.Marshal(x)
	trace.Must(err, "json")
	return string(b)
}

// the digests: what was given, and what came back
func dDB(d *model.DBInfo) string           { return "D" + trace.V([]byte(js(d))) }
func dColl(c *model.CollectionInfo) string { return "C" + trace.V([]byte(js(c))) }

// jobGiven describes a job that is about to be stored; jobBack one that was read
func jobDig(j *model.Job, arg string) string {
	e := "-"
	if j.Error != nil {
		e = "E" + j.Error.Error()
	}
	return "J" + trace.V([]byte(fmt.Sprint(j.ID, "|", j.Type, "|", j.State, "|", e, "|", j.ErrorCount, "|", j.SchemaState, "|", j.StartTS, "|", j.DependencyID, "|", arg)))
}
func jobGiven(j *model.Job) string { return jobDig(j, js(j.Arg)) }
func jobBack(j *model.Job) string  { return jobDig(j, norm(j.RawArg)) }
func norm(raw []byte) string { // whitespace and escaping aside
	var x json.RawMessage
	if json.Unmarshal(raw, &x) != nil {
		return "bad:" + string(raw)
	}
	return js(x)
}
func diffDig(d *model.SchemaDiff, arg string) string {
	return "S" + trace.V([]byte(fmt.Sprint(d.Version, "|", d.Type, "|", d.CollectionIDs, "|", arg)))
}
func diffGiven(d *model.SchemaDiff) string { return diffDig(d, js(d.Arg)) }
func diffBack(d *model.SchemaDiff) string  { return diffDig(d, norm(d.RawArg)) }

func class(err error) string {
	switch err {
	case nil:
		return "ok"
	case meta.ErrDBExists:
		return "dbexists"
	case meta.ErrDBNotExists:
		return "nodb"
	case meta.ErrCollectionExists:
		return "collexists"
	case meta.ErrCollectionNotExists:
		return "nocoll"
	case meta.ErrJobNotExists:
		return "nojob"
	case kv.ErrKeyNotFound:
		return "notfound"
	}
	return "err"
}

func orNone(err error, isNil bool) string {
	if err == nil && isNil {
		return "none"
	}
	return class(err)
}

var qs = map[string]meta.JobListKeyType{"d": meta.DefaultJobListKey, "a": meta.AddIndexJobListKey}

func (r *runner) id(k int) int64 {
	if k < 0 {
		k = -k
	}
	return r.ids[k%len(r.ids)]
}

func (r *runner) run(o op) {
	if r.dead {
		return
	}
	rnd := r.rnd
	ev := trace.Ev{"e": o.E}
	db, id := r.id(o.DB), r.id(o.ID)
	if o.E != "begin" && o.E != "commit" && o.E != "discard" && o.E != "reopen" {
		ev["db"], ev["id"] = trace.I64(db), trace.I64(id)
	}
	jid := func() int64 { // a job id
		if id < 0 {
			id = id & math.MaxInt64
		}
		ev["id"] = trace.I64(id)
		return id
	}
	var m, mq *meta.Meta
	var extra []meta.JobListKeyType
	if r.txn != nil {
		m = meta.NewMeta(r.txn)
		mq = m
		if o.Q != "" {
			ev["q"] = o.Q
			if rnd.Intn(2) == 0 || o.E == "deq" { // the queue is named when the Meta is made, or in the call
				mq = meta.NewMeta(r.txn, qs[o.Q])
			} else {
				extra = []meta.JobListKeyType{qs[o.Q]}
				if o.Q == "d" && rnd.Intn(2) == 0 {
					extra = nil
				}
			}
		}
	}
	var f func() string
	switch o.E {
	case "begin":
		ev["upd"] = o.Upd
		f = func() string { r.txn, r.upd = r.l.KV.NewTransaction(o.Upd), o.Upd; return "ok" }
	case "commit":
		f = func() string { t := r.txn; r.txn = nil; defer t.Discard(); return class(t.Commit()) }
	case "discard":
		f = func() string { t := r.txn; r.txn = nil; t.Discard(); return "ok" }
	case "reopen":
		mode := []string{"clean", "crash"}[rnd.Intn(2)]
		ev["mode"] = mode
		f = func() string {
			if r.txn != nil {
				r.txn.Discard()
				r.txn = nil
			}
			return class(r.l.Reopen(mode))
		}
	case "seq":
		n := int64(o.I)
		ev["n"], ev["v"] = trace.I64(n), trace.I64(0)
		f = func() string {
			s, err := meta.NewDocIDSequence(r.l.KV, db, id, n)
			if err != nil {
				return class(err)
			}
			v, err := s.Next()
			ev["v"] = trace.I64(v)
			if err == nil {
				err = s.Close(false)
			}
			return class(err)
		}
	case "createdb", "updatedb":
		d := r.db(db)
		ev["d"] = dDB(d)
		f = func() string {
			if o.E == "createdb" {
				return class(m.CreateDatabase(d))
			}
			return class(m.UpdateDatabase(d))
		}
	case "dropdb":
		f = func() string { return class(m.DropDatabase(db)) }
	case "getdb":
		ev["d"] = ""
		f = func() string {
			d, err := m.GetDatabase(db)
			if err == nil {
				ev["d"] = dDB(d)
			}
			return class(err)
		}
	case "listdbs":
		l := []trace.Ev{}
		f = func() string {
			ds, err := m.ListDatabases()
			for _, d := range ds {
				l = append(l, trace.Ev{"id": trace.I64(d.ID), "d": dDB(d)})
			}
			ev["l"] = l
			return class(err)
		}
	case "createcoll", "updatecoll":
		c := r.coll(id)
		ev["d"] = dColl(c)
		f = func() string {
			if o.E == "createcoll" {
				return class(m.CreateCollection(db, c))
			}
			return class(m.UpdateCollection(db, c))
		}
	case "dropcoll":
		auto := rnd.Intn(2) == 0
		ev["auto"] = auto
		f = func() string { return class(m.DropCollection(db, id, auto)) }
	case "getcoll":
		ev["d"] = ""
		f = func() string {
			c, err := m.GetCollection(db, id)
			if err == nil {
				ev["d"] = dColl(c)
			}
			return class(err)
		}
	case "listcolls":
		l := []trace.Ev{}
		f = func() string {
			cs, err := m.ListCollections(db)
			for _, c := range cs {
				l = append(l, trace.Ev{"id": trace.I64(c.ID), "d": dColl(c)})
			}
			ev["l"] = l
			return class(err)
		}
	case "gid", "gengid", "sver", "gensver", "boot":
		f = func() string {
			v, err := map[string]func() (int64, error){"gid": m.GetGlobalID, "gengid": m.GenGlobalID, "sver": m.GetSchemaVersion,
				"gensver": m.GenSchemaVersion, "boot": m.GetBootstrapVersion}[o.E]()
			ev["v"] = trace.I64(v)
			return class(err)
		}
	case "gengids":
		n := []int{0, 1, 2, 7, 1000, 1 << 30}[rnd.Intn(6)]
		ev["n"] = trace.I64(int64(n))
		f = func() string {
			lo, hi, err := m.GenGlobalIDs(n)
			ev["lo"], ev["hi"] = trace.I64(lo), trace.I64(hi)
			return class(err)
		}
	case "finishboot":
		ev["v"] = trace.I64(id)
		f = func() string { return class(m.FinishBootstrap(id)) }
	case "getdiff":
		ev["d"] = ""
		f = func() string {
			d, err := m.GetSchemaDiff(id)
			if err == nil && d != nil {
				ev["d"] = diffBack(d)
			}
			return orNone(err, d == nil)
		}
	case "setdiff":
		d := r.diff(id)
		ev["d"] = diffGiven(d)
		f = func() string { return class(m.SetSchemaDiff(d)) }
	case "enq":
		j := r.job(jid())
		ev["d"] = jobGiven(j)
		f = func() string { return class(mq.EnQueueDDLJob(j, extra...)) }
	case "deq":
		ev["d"] = ""
		f = func() string {
			j, err := mq.DeQueueDDLJob()
			if err == nil && j != nil {
				ev["d"] = jobBack(j)
			}
			return orNone(err, j == nil)
		}
	case "at":
		ev["d"], ev["i"] = "", o.I
		f = func() string {
			j, err := mq.GetDDLJobByIdx(int64(o.I), extra...)
			if err == nil && j != nil {
				ev["d"] = jobBack(j)
			}
			return orNone(err, j == nil)
		}
	case "upd":
		j := r.job(jid())
		ev["i"] = o.I
		if rnd.Intn(3) == 0 && r.txn != nil { // change the job that is there
			if old, err := mq.GetDDLJobByIdx(int64(o.I), extra...); err == nil && old != nil {
				old.State, old.SchemaState = j.State, j.SchemaState
				j = old
				ev["d"] = jobBack(j)
			}
		}
		if ev["d"] == nil {
			ev["d"] = jobGiven(j)
		}
		f = func() string { return class(mq.UpdateDDLJob(int64(o.I), j, extra...)) }
	case "qlen":
		f = func() string {
			n, err := mq.DDLJobQueueLen(extra...)
			ev["c"] = n
			return class(err)
		}
	case "qall":
		ds := []string{}
		f = func() string {
			js, err := mq.GetAllDDLJobsInQueue(extra...)
			for _, j := range js {
				ds = append(ds, jobBack(j))
			}
			ev["ds"] = ds
			return class(err)
		}
	case "addhist":
		j := r.job(jid())
		ev["d"] = jobGiven(j)
		f = func() string { return class(m.AddHistoryDDLJob(j)) }
	case "gethist":
		ev["d"] = ""
		jid()
		f = func() string {
			j, err := m.GetHistoryDDLJob(id)
			if err == nil && j != nil {
				ev["d"] = jobBack(j)
			}
			return orNone(err, j == nil)
		}
	case "allhist", "lasthist":
		n := rnd.Intn(8) - 1
		ev["c"] = n
		l := []trace.Ev{}
		f = func() string {
			var js []*model.Job
			var err error
			if o.E == "allhist" {
				js, err = m.GetAllHistoryDDLJobs()
			} else {
				js, err = m.GetLastNHistoryDDLJobs(n)
			}
			for _, j := range js {
				l = append(l, trace.Ev{"id": trace.I64(j.ID), "d": jobBack(j)})
			}
			ev["l"] = l
			return class(err)
		}
	case "rostart", "roboth", "roremove", "roget":
		j := &model.Job{ID: jid()}
		v, v2 := r.id(rnd.Intn(6)), r.id(rnd.Intn(6))
		ev["v"], ev["v2"] = trace.I64(v), trace.I64(v2)
		f = func() string {
			switch o.E {
			case "rostart":
				return class(m.UpdateDDLReorgStartHandle(j, v))
			case "roboth":
				return class(m.UpdateDDLReorgHandle(j, v, v2, 0))
			case "roremove":
				return class(m.RemoveDDLReorgHandle(j))
			}
			s, e, err := m.GetDDLReorgHandle(j)
			ev["v"], ev["v2"] = trace.I64(s), trace.I64(e)
			return class(err)
		}
	default:
		trace.Fatal("unknown op %+v", o)
	}
	res, detail := trace.Guard(f)
	if res == "hang" {
		ev = trace.Ev{"e": "hung", "op": o.E}
		r.dead = true
	}
	if res == "panic" {
		r.dead = true
	}
	ev["r"] = res
	if detail != "" {
		ev["detail"] = detail
	}
	r.w.Emit(ev)
}

func newRunner(w *trace.W, rnd *rand.Rand) *runner {
	r := &runner{w: w, rnd: rnd, l: kvx.OpenLocal("badger"), ids: idSets[rnd.Intn(len(idSets))]}
	w.Reset(trace.Ev{"kind": "catalog"})
	return r
}

func (r *runner) end() {
	// everything is looked at once more
	if r.txn != nil {
		r.run(op{E: "commit"})
	}
	if r.rnd.Intn(3) == 0 {
		r.run(op{E: "reopen"})
	}
	r.run(op{E: "begin", Upd: r.rnd.Intn(2) == 0})
	for _, e := range []string{"listdbs", "gid", "sver", "boot", "allhist"} {
		r.run(op{E: e})
	}
	for k := range r.ids {
		r.run(op{E: "getdb", DB: k})
		r.run(op{E: "listcolls", DB: k})
		r.run(op{E: "getdiff", ID: k})
		r.run(op{E: "roget", ID: k})
	}
	for q := range qs {
		r.run(op{E: "qall", Q: q})
		r.run(op{E: "qlen", Q: q})
	}
	r.run(op{E: "discard"})
	if !r.dead {
		trace.Must(r.l.Close(), "close")
	}
}

var all = []string{"createdb", "createdb", "createdb", "updatedb", "dropdb", "getdb", "listdbs", "createcoll", "createcoll", "createcoll", "createcoll", "createcoll", "updatecoll", "updatecoll", "dropcoll", "getcoll", "getcoll", "listcolls",
	"gid", "gengid", "gengids", "sver", "gensver", "boot", "finishboot", "getdiff", "setdiff", "enq", "enq", "deq", "at", "upd", "qlen", "qall",
	"addhist", "gethist", "allhist", "lasthist", "rostart", "roboth", "roremove", "roget"}

var themes = [][]string{nil, all[:18], all[18:27], all[27:34], all[34:]}

func random(w *trace.W, rnd *rand.Rand, n int) {
	r := newRunner(w, rnd)
	ops := themes[rnd.Intn(len(themes))]
	if ops == nil {
		ops = all
	}
	ni := 1 + rnd.Intn(6)
	if rnd.Intn(2) == 0 {
		ni = 2
	}
	for k := 0; k < n && !r.dead; k++ {
		if r.txn == nil {
			switch x := rnd.Intn(12); {
			case x == 0:
				r.run(op{E: "reopen"})
			case x < 4:
				r.run(op{E: "seq", DB: rnd.Intn(ni), ID: rnd.Intn(ni), I: []int{1, 1, 2, 100, 1000}[rnd.Intn(5)]})
			default:
				r.run(op{E: "begin", Upd: rnd.Intn(8) > 0})
			}
			continue
		}
		switch x := rnd.Intn(40); {
		case x < 6:
			r.run(op{E: "commit"})
		case x < 8:
			r.run(op{E: "discard"})
		case x < 9 && rnd.Intn(4) == 0:
			r.run(op{E: "reopen"})
		default:
			r.run(op{E: ops[rnd.Intn(len(ops))], DB: rnd.Intn(ni), ID: rnd.Intn(ni), Q: []string{"d", "a"}[rnd.Intn(2)], I: rnd.Intn(7) - 3})
		}
	}
	r.end()
}

func replay(w *trace.W, rnd *rand.Rand, ops []op) {
	r := newRunner(w, rnd)
	for _, o := range ops {
		r.run(o)
	}
	r.end()
}

func main() {
	flag.Parse()
	w := trace.Open(*out)
	rnd := rand.New(rand.NewSource(*seed*1000003 + 5))
	if *in != "" {
		f, err := os.Open(*in)
		trace.Must(err, "behaviours")
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<26)
		for sc.Scan() {
			var ops []op
			trace.Must(json.Unmarshal(sc.Bytes(), &ops), "behaviour")
			replay(w, rnd, ops)
		}
	}
	for k := 0; k < 60**size; k++ {
		random(w, rnd, 120)
	}
	w.Close()
}
