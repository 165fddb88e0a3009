package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"sync"

	"github.com/zhiqiangxu/mondis/document"
	"mondisverif/trace"
)

// def is an index definition as the traces show it.
type def struct {
	Name string `json:"name"`
	Cols []col  `json:"cols"`
	Uniq bool   `json:"uniq"`
}
type col struct {
	N string `json:"n"`
	D bool   `json:"d"`
}

func sig(s string) string {
	if len(s) > 40 {
		return fmt.Sprintf("L%d:%s", len(s), trace.V([]byte(s)))
	}
	return fmt.Sprintf("%q", s)
}

func toDef(i document.IndexDefinition) def {
	d := def{Name: sig(i.Name), Cols: []col{}, Uniq: i.Option.Unique}
	for _, f := range i.Fields {
		d.Cols = append(d.Cols, col{sig(f.Name), f.Desc})
	}
	return d
}

func toDefs(is []document.IndexDefinition) []def {
	ds := []def{}
	for _, i := range is {
		ds = append(ds, toDef(i))
	}
	sort.Slice(ds, func(i, j int) bool { return fmt.Sprint(ds[i]) < fmt.Sprint(ds[j]) })
	return ds
}

// step of a plan
type step struct {
	E    string   `json:"e"` // create drop reopen crash
	C    int      `json:"c"`
	Name string   `json:"name"`
	Cols []string `json:"cols"` // "-" in front: descending
	Uniq bool     `json:"uniq"`
	Fail int      `json:"fail"`
}

var collNames = []string{"c", "c\x00", "indexes", "Collection", "_in", "ä"}

func (wd *world) coll(c int) (co *document.Collection, err error) {
	return wd.db.Collection(collNames[c])
}

// the collections look (in memory) and are stored like this
func (wd *world) look(colls []int) {
	if wd.dead {
		return
	}
	for _, c := range colls {
		ev := trace.Ev{"e": "list", "c": c}
		r, d := trace.Guard(func() string {
			co, err := wd.coll(c)
			if err != nil {
				return "err: " + err.Error()
			}
			is := co.GetIndexes()
			ev["defs"] = toDefs(is)
			for _, i := range is { // the answer is ours
				for j := range i.Fields {
					i.Fields[j] = document.IndexField{Name: "spoilt", Desc: true}
				}
			}
			return "ok"
		})
		wd.shown(ev, r, d)
	}
	wd.stored(colls)
}

// stored is what a fresh database on the same store says
func (wd *world) stored(colls []int) {
	if wd.dead {
		return
	}
	evs := []trace.Ev{}
	r, d := trace.Guard(func() string {
		db := document.NewDB(wd.raw)
		defer db.Close()
		for _, c := range colls {
			co, err := db.Collection(collNames[c])
			if err != nil {
				return "err: " + err.Error()
			}
			evs = append(evs, trace.Ev{"e": "stored", "c": c, "defs": toDefs(co.GetIndexes())})
		}
		return "ok"
	})
	if r != "ok" {
		evs = []trace.Ev{{"e": "stored", "c": colls[0]}}
	}
	for _, e := range evs {
		wd.shown(e, r, d)
	}
}

func (wd *world) shown(e trace.Ev, r, d string) {
	if r == "hang" || r == "panic" {
		wd.dead = true
		e = trace.Ev{"e": "hung", "op": e["e"], "detail": d}
	}
	if e["defs"] == nil {
		e["defs"] = []def{}
	}
	e["r"] = r
	wd.emit(e)
}

func (wd *world) step(g int, s step) (fault bool) {
	if wd.dead {
		return
	}
	switch s.E {
	case "create":
		idef := document.IndexDefinition{Name: s.Name, Option: document.IndexOption{Unique: s.Uniq}}
		for _, f := range s.Cols {
			idef.Fields = append(idef.Fields, document.IndexField{Name: strings.TrimPrefix(f, "-"), Desc: strings.HasPrefix(f, "-")})
		}
		given := idef.Clone()
		co, err := wd.coll(s.C)
		if err != nil {
			wd.emit(trace.Ev{"e": "hung", "op": "coll", "r": err.Error()})
			wd.dead = true
			return
		}
		_, fault = wd.do(g, s.Fail, trace.Ev{"op": "create", "c": s.C, "def": toDef(given), "badname": s.Name == "", "long": long(given)}, func(e trace.Ev) string {
			iid, err := co.CreateIndex(idef)
			e["kept"] = fmt.Sprint(toDef(idef)) == fmt.Sprint(toDef(given))
			e["iid"] = iid
			if err != nil {
				e["iid"] = 0
			}
			for j := range idef.Fields { // the definition is ours
				idef.Fields[j] = document.IndexField{Name: "spoilt", Desc: !idef.Fields[j].Desc}
			}
			return class(err)
		})
	case "drop":
		co, err := wd.coll(s.C)
		if err != nil {
			wd.emit(trace.Ev{"e": "hung", "op": "coll", "r": err.Error()})
			wd.dead = true
			return
		}
		_, fault = wd.do(g, s.Fail, trace.Ev{"op": "drop", "c": s.C, "name": sig(s.Name), "badname": s.Name == "", "long": len(s.Name) > 1000}, func(e trace.Ev) string {
			exists, err := co.DropIndex(s.Name)
			e["exists"] = exists && err == nil
			return class(err)
		})
	case "reopen", "crash":
		r, d := trace.Guard(func() string {
			if s.E == "reopen" {
				wd.db.Close()
			}
			return "ok"
		})
		if r != "ok" {
			wd.shown(trace.Ev{"e": "close"}, r, d)
			return
		}
		wd.boot()
	}
	return
}

func long(i document.IndexDefinition) bool {
	n := len(i.Name)
	for _, f := range i.Fields {
		n += len(f.Name)
	}
	return n > 1000
}

func replay(w *trace.W, r *rand.Rand, plan []step) {
	wd := newWorld(w, r)
	defer wd.end()
	for i, s := range plan {
		wd.step(1, s)
		if i%4 == 3 || s.E == "crash" {
			wd.look([]int{0, 1})
		}
	}
	wd.look([]int{0, 1})
}

var iNames = []string{"i", "j", "i\x00", "i_in", "ÿ", strings.Repeat("n", 300)}
var fNames = []string{"f", "g", "f\x00", "", "ab", "\x01f", strings.Repeat("f", 200)}

func anyStep(r *rand.Rand, nc int) (s step) {
	s.C = r.Intn(nc)
	s.Name = iNames[r.Intn(1+r.Intn(len(iNames)))]
	if r.Intn(5) < 2 {
		s.E = "drop"
		if r.Intn(25) == 0 {
			s.Name = ""
		}
		return
	}
	s.E = "create"
	for n := []int{0, 1, 1, 1, 1, 2, 2, 2, 3, 4}[r.Intn(10)]; n > 0; n-- {
		f := fNames[r.Intn(1+r.Intn(len(fNames)))]
		dup := false
		for _, x := range s.Cols {
			dup = dup || strings.TrimPrefix(x, "-") == f
		}
		if dup {
			continue
		}
		if r.Intn(3) == 0 {
			f = "-" + f
		}
		s.Cols = append(s.Cols, f)
	}
	s.Uniq = r.Intn(2) == 0
	switch r.Intn(40) {
	case 0:
		s.Name = ""
	case 1:
		s.Name = strings.Repeat("x", 66000) // too long for a key
	case 2:
		s.Cols = append(s.Cols, strings.Repeat("y", 66000))
	}
	return
}

// histories: one caller, failing operations, restarts.
func histories(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r)
	defer wd.end()
	nc := 1 + r.Intn(3)
	colls := []int{}
	for c := 0; c < nc; c++ {
		colls = append(colls, c)
	}
	for i := 0; i < 40; i++ {
		s := anyStep(r, nc)
		switch r.Intn(16) {
		case 0, 1, 2:
			s.Fail = 1 + r.Intn(12)
		case 3:
			s = step{E: []string{"reopen", "crash"}[r.Intn(2)]}
		}
		wd.step(1, s)
		if r.Intn(3) == 0 || s.Fail > 0 || s.Name == "" {
			wd.look(colls)
		}
	}
	wd.look(colls)
}

// everyFault: each operation fails at each of its accesses.
func everyFault(w *trace.W, r *rand.Rand) {
	for _, s := range []step{
		{E: "create", Name: "a", Cols: []string{"f"}},
		{E: "create", Name: "b", Cols: []string{"-g", "f"}, Uniq: true},
		{E: "drop", Name: "here"},
		{E: "drop", Name: "not here"},
		{E: "create", Name: "here", Cols: []string{"k"}},
		{E: "create", Name: "k", Cols: []string{"h"}},
	} {
		wd := newWorld(w, r)
		wd.step(1, step{E: "create", Name: "here", Cols: []string{"h"}})
		// with the last index id of a lease as well
		for n := r.Intn(2) * 49; n > 0; n-- {
			wd.step(1, step{E: "create", Name: "t", Cols: []string{"t"}})
			wd.step(1, step{E: "drop", Name: "t"})
		}
		for i := 1; i < 40; i++ {
			s.Fail = i
			hit := wd.step(1, s)
			wd.look([]int{0})
			if !hit || wd.dead {
				break
			}
		}
		wd.end()
	}
}

// together: several callers at once.
func together(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r)
	defer wd.end()
	for _, c := range []int{0, 1} {
		wd.coll(c)
	}
	wd.slow = r.Intn(3) > 0
	for round := 0; round < 4 && !wd.dead; round++ {
		var wg sync.WaitGroup
		for g := 1; g <= 5; g++ {
			g, lr := g, rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 12; i++ {
					s := step{E: "create", C: lr.Intn(2), Name: iNames[lr.Intn(2)], Uniq: lr.Intn(2) == 0,
						Cols: [][]string{{"f"}, {"-f"}, {"f", "g"}, {"g", "-f"}}[lr.Intn(4)]}
					if lr.Intn(2) == 0 {
						s = step{E: "drop", C: s.C, Name: s.Name}
					}
					wd.step(g, s)
					if lr.Intn(4) == 0 {
						if co, err := wd.coll(s.C); err == nil {
							co.GetIndexes()
						}
					}
				}
			}()
		}
		wg.Wait()
		wd.look([]int{0, 1})
		if r.Intn(2) == 0 {
			wd.step(1, step{E: []string{"reopen", "crash"}[r.Intn(2)]})
			wd.look([]int{0, 1})
		}
	}
}
