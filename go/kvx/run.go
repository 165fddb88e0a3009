// Package kvx executes abstract key-value programs against a real store and records the trace.
package kvx

import (
	"errors"
	"fmt"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/provider"
	"mondisverif/trace"
)

// Op is one abstract operation; the fields mirror the events of KV.tla.
type Op struct {
	E      string `json:"e"`
	T      int    `json:"t"`
	W      int    `json:"w"`
	K      []int  `json:"k"`
	V      string `json:"v"` // hex
	VN     int    `json:"vn"`
	VNil   bool   `json:"vnil"`
	Meta   bool   `json:"meta"`
	Tag    int    `json:"tag"`
	TTL    string `json:"ttl"` // none short long
	Rev    bool   `json:"rev"`
	Prefix []int  `json:"prefix"`
	PfxNil bool   `json:"pfxnil"`
	HasOff bool   `json:"hasoff"`
	Off    []int  `json:"off"`
	Stop   int    `json:"stop"`
	Upd    bool   `json:"upd"`
	Mode   string `json:"mode"`
	C      int    `json:"c"`
	Kind   int    `json:"kind"`
	K2     []int  `json:"k2"`
	Del    bool   `json:"del"`
}

// ErrClass maps an error of the code under test to the name used in the specification.
func ErrClass(err error) string {
	switch {
	case err == nil:
		return "ok"
	case err == kv.ErrKeyNotFound:
		return "notfound"
	case err == kv.ErrTxnTooBig:
		return "toobig"
	case strings.Contains(err.Error(), "Transaction Conflict"):
		return "conflict"
	}
	return "err"
}

// Target is a store the executor can drive.
type Target interface {
	Prov() string
	DB() mondis.ProviderKVOP
	Begin(upd bool) (Tx, error)
	WB() mondis.ProviderWriteBatch
	Reopen(mode string) error
	Close() error
}

// Tx is a transaction of a Target.
type Tx interface {
	mondis.ProviderKVOP
	Commit() error
	Discard()
}

// Local is an embedded provider.
type Local struct {
	Name string
	Dir  string
	KV   mondis.KVDB
}

// NewKV constructs a provider.
func NewKV(name string) mondis.KVDB {
	if name == "leveldb" {
		return provider.NewLevelDB()
	}
	return provider.NewBadger()
}

// OpenLocal opens a fresh store.
func OpenLocal(name string) *Local {
	l := &Local{Name: name, Dir: trace.Scratch(name), KV: NewKV(name)}
	trace.Must(l.KV.Open(mondis.KVOption{Dir: l.Dir}), "open "+name)
	return l
}

func (l *Local) Prov() string                  { return l.Name }
func (l *Local) DB() mondis.ProviderKVOP       { return l.KV }
func (l *Local) Begin(upd bool) (Tx, error)    { return l.KV.NewTransaction(upd), nil }
func (l *Local) WB() mondis.ProviderWriteBatch { return l.KV.WriteBatch() }

// Reopen closes and opens again ("clean"), or abandons the running store and opens a
// byte image of its directory taken while it was open ("crash").
func (l *Local) Reopen(mode string) error {
	if mode == "crash" {
		img := trace.Scratch("img")
		os.RemoveAll(img)
		CopyDir(l.Dir, img)
		os.Remove(img + "/LOCK")
		old := l.KV
		oldDir := l.Dir
		defer func() {
			go func() { old.Close(); os.RemoveAll(oldDir) }()
		}()
		l.Dir = img
	} else {
		if err := l.KV.Close(); err != nil {
			return fmt.Errorf("close: %v", err)
		}
	}
	l.KV = NewKV(l.Name)
	return l.KV.Open(mondis.KVOption{Dir: l.Dir})
}

// Close the store and remove its files.
func (l *Local) Close() error {
	err := l.KV.Close()
	os.RemoveAll(l.Dir)
	return err
}

// CopyDir copies a directory tree keeping sparse files sparse.
func CopyDir(src, dst string) {
	out, err := exec.Command("cp", "-r", "--sparse=always", src, dst).CombinedOutput()
	if err != nil {
		trace.Fatal("cp: %v %s", err, out)
	}
}

// Scribble changes what belongs to the caller. The memory of a store may not even be writable.
func Scribble(bs ...[]byte) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	for _, b := range bs {
		for i := range b {
			b[i] ^= 0x5a
		}
	}
}

func valOf(o Op) []byte {
	if o.VNil {
		return nil
	}
	if o.VN > 0 {
		b := make([]byte, o.VN)
		seed := byte(len(o.V))
		for i := range b {
			b[i] = byte(i*7) ^ seed ^ byte(i>>8)
		}
		copy(b, o.V)
		return b
	}
	b := make([]byte, len(o.V)/2)
	fmt.Sscanf(o.V, "%x", &b)
	if len(o.V) == 0 {
		b = []byte{}
	}
	return b
}

// TTLShort is the time-to-live of "short" entries.
const TTLShort = 2 * time.Second

const ttlLong = 2 * time.Hour

func metaOf(o Op) *mondis.VMetaReq {
	if !o.Meta {
		return nil
	}
	m := &mondis.VMetaReq{Tag: byte(o.Tag)}
	switch o.TTL {
	case "short":
		m.TTL = TTLShort
	case "long":
		m.TTL = ttlLong
	}
	return m
}

// expClass abstracts an expiry timestamp read back.
func expClass(x uint64) string {
	if x == 0 {
		return "none"
	}
	d := int64(x) - time.Now().Unix()
	switch {
	case d >= -60 && d <= 5:
		return "short"
	case d > 7200-600 && d <= 7202:
		return "long"
	}
	return fmt.Sprintf("bad%d", d)
}

// Runner executes programs on one target.
type Runner struct {
	T    Target
	W    *trace.W
	txns map[int]Tx
	wbs  map[int]mondis.ProviderWriteBatch
	// when the last entry with a short ttl was written
	lastShort time.Time
	// Extra fields of every event
	Extra trace.Ev
	// As, if set, renames the events: the operation goes to the field op
	As string
	// Dead is set when a call hung or the store could not be reopened
	Dead bool
}

// NewRunner starts a segment.
func NewRunner(t Target, w *trace.W) *Runner {
	w.Reset(trace.Ev{"prov": t.Prov()})
	return &Runner{T: t, W: w, txns: map[int]Tx{}, wbs: map[int]mondis.ProviderWriteBatch{}}
}

// Resume continues a segment on an already opened store.
func Resume(t Target, w *trace.W) *Runner {
	return &Runner{T: t, W: w, txns: map[int]Tx{}, wbs: map[int]mondis.ProviderWriteBatch{}}
}

// fillMax bounds the writes of a "fill": badger's transactions hold some hundred thousand.
const fillMax = 1 << 19

// wbFill is how often a "wbfill" writes its key: more than one of badger's transactions holds.
const wbFill = 110000

var errNoTxn = errors.New("harness: no such transaction")

// Run executes one operation and records it.
func (r *Runner) Run(o Op) {
	if r.Dead {
		return
	}
	ev := trace.Ev{"e": o.E}
	if r.As != "" {
		ev["e"], ev["op"] = r.As, o.E
	}
	for k, v := range r.Extra {
		ev[k] = v
	}
	var ops mondis.ProviderKVOP
	if o.T == 0 {
		ops = r.T.DB()
	} else if o.E != "begin" {
		tx, ok := r.txns[o.T]
		if !ok {
			trace.Fatal("%v: %+v", errNoTxn, o)
		}
		ops = tx
	}
	key := trace.UnK(o.K)
	var f func() string
	switch o.E {
	case "begin":
		ev["t"], ev["upd"] = o.T, o.Upd
		f = func() string {
			tx, err := r.T.Begin(o.Upd)
			if err == nil {
				r.txns[o.T] = tx
			}
			return ErrClass(err)
		}
	case "set":
		ev["t"], ev["k"], ev["v"] = o.T, trace.K(key), trace.V(valOf(o))
		ev["meta"], ev["tag"], ev["ttl"] = o.Meta, o.Tag, o.TTL
		if !o.Meta {
			ev["tag"], ev["ttl"] = 0, "none"
		}
		f = func() string {
			v := valOf(o)
			c := ErrClass(ops.Set(key, v, metaOf(o)))
			if o.T == 0 {
				Scribble(key, v) // they are the caller's again
			}
			return c
		}
		if o.Meta && o.TTL == "short" {
			r.lastShort = time.Now()
		}
	case "get":
		ev["t"], ev["k"], ev["v"], ev["tag"], ev["exp"] = o.T, trace.K(key), "", 0, "none"
		f = func() string {
			v, m, err := ops.Get(key)
			if err == nil {
				ev["v"], ev["tag"], ev["exp"] = trace.V(v), int(m.Tag), expClass(m.ExpiresAt)
				Scribble(v) // it is the caller's
			}
			return ErrClass(err)
		}
	case "exists":
		ev["t"], ev["k"], ev["b"] = o.T, trace.K(key), false
		f = func() string {
			b, err := ops.Exists(key)
			ev["b"] = b
			return ErrClass(err)
		}
	case "delete":
		ev["t"], ev["k"] = o.T, trace.K(key)
		f = func() string {
			c := ErrClass(ops.Delete(key))
			if o.T == 0 {
				Scribble(key)
			}
			return c
		}
	case "fill":
		key2, val := trace.UnK(o.K2), valOf(o)
		ev["t"], ev["k"], ev["k2"], ev["del"], ev["v"] = o.T, trace.K(key), trace.K(key2), o.Del, trace.V(val)
		ev["n"], ev["r2"], ev["tag"] = 0, "none", 0
		var meta *mondis.VMetaReq
		if o.Meta {
			ev["tag"] = o.Tag
			meta = metaOf(o)
		}
		f = func() string {
			n := 0
			var err error
			for n < fillMax && err == nil {
				if o.Del {
					err = ops.Delete(key)
				} else {
					err = ops.Set(key, val, meta)
				}
				if err == nil {
					n++
				}
			}
			ev["n"] = n
			if o.Del {
				ev["r2"] = ErrClass(ops.Set(key2, val, meta))
			} else {
				ev["r2"] = ErrClass(ops.Delete(key2))
			}
			return ErrClass(err)
		}
	case "scan":
		pfx := trace.UnK(o.Prefix)
		ev["t"], ev["rev"], ev["prefix"], ev["hasoff"], ev["off"], ev["stop"] = o.T, o.Rev, trace.K(pfx), o.HasOff, trace.K(trace.UnK(o.Off)), o.Stop
		f = func() string {
			opt := mondis.ProviderScanOption{Reverse: o.Rev, Prefix: pfx}
			if o.PfxNil && len(pfx) == 0 {
				opt.Prefix = nil
			}
			if o.HasOff {
				opt.Offset = trace.UnK(o.Off)
			}
			es := []interface{}{}
			var err error
			if ls, ok := ops.(LimitScanner); ok {
				var ents []mondis.Entry
				ents, err = ls.ScanLimit(opt, o.Stop)
				for _, e := range ents {
					es = append(es, trace.Ev{"k": trace.K(e.Key), "v": trace.V(e.Value), "tag": int(e.Meta.Tag), "exp": expClass(e.Meta.ExpiresAt)})
				}
			} else {
				err = ops.Scan(opt, func(k, v []byte, m mondis.VMetaResp) bool {
					es = append(es, trace.Ev{"k": trace.K(k), "v": trace.V(v), "tag": int(m.Tag), "exp": expClass(m.ExpiresAt)})
					return o.Stop == 0 || len(es) < o.Stop
				})
			}
			ev["es"] = es
			return ErrClass(err)
		}
		ev["es"] = []interface{}{}
	case "commit":
		ev["t"] = o.T
		f = func() string { return ErrClass(ops.(Tx).Commit()) }
	case "discard":
		ev["t"] = o.T
		f = func() string { ops.(Tx).Discard(); return "ok" }
	case "wbnew":
		ev["w"] = o.W
		f = func() string { r.wbs[o.W] = r.T.WB(); return "ok" }
	case "wbset":
		ev["w"], ev["k"], ev["v"] = o.W, trace.K(key), trace.V(valOf(o))
		f = func() string { return ErrClass(r.wbs[o.W].Set(key, valOf(o))) }
	case "wbdel":
		ev["w"], ev["k"] = o.W, trace.K(key)
		f = func() string { return ErrClass(r.wbs[o.W].Delete(key)) }
	case "wbfill":
		val := valOf(o)
		ev["w"], ev["k"], ev["v"], ev["del"] = o.W, trace.K(key), trace.V(val), o.Del
		f = func() string {
			for i := 0; i < wbFill; i++ {
				var err error
				if o.Del {
					err = r.wbs[o.W].Delete(key)
				} else {
					err = r.wbs[o.W].Set(key, val)
				}
				if err != nil {
					return ErrClass(err)
				}
			}
			return "ok"
		}
	case "wbcommit":
		ev["w"] = o.W
		f = func() string { return ErrClass(r.wbs[o.W].Commit()) }
	case "wbdiscard":
		ev["w"] = o.W
		f = func() string { r.wbs[o.W].Discard(); return "ok" }
	case "reopen":
		ev["mode"] = o.Mode
		f = func() string {
			if o.Mode == "clean" {
				for id, tx := range r.txns {
					tx.Discard()
					delete(r.txns, id)
				}
				for id, wb := range r.wbs {
					wb.Discard()
					delete(r.wbs, id)
				}
			}
			err := r.T.Reopen(o.Mode)
			r.txns = map[int]Tx{}
			r.wbs = map[int]mondis.ProviderWriteBatch{}
			if err != nil {
				r.Dead = true
				fmt.Fprintln(os.Stderr, "reopen failed:", err)
			}
			return ErrClass(err)
		}
	case "expire":
		f = func() string {
			// badger compares whole seconds
			d := time.Until(r.lastShort.Add(TTLShort + 1100*time.Millisecond))
			if d > 0 {
				time.Sleep(d)
			}
			return "ok"
		}
	default:
		trace.Fatal("unknown op %+v", o)
	}
	res, detail := trace.Guard(f)
	if res == "hang" {
		// the closure may still write into ev: record a copy without it
		ev = trace.Ev{"e": "hung", "op": o.E, "t": o.T}
		r.Dead = true
	}
	ev["r"] = res
	if detail != "" {
		ev["detail"] = detail
	}
	r.W.Emit(ev)
	r.W.Flush()
}

// Perform executes a point operation or a scan without recording it.
func Perform(ops mondis.ProviderKVOP, o Op) {
	key := trace.UnK(o.K)
	switch o.E {
	case "set":
		ops.Set(key, valOf(o), metaOf(o))
	case "get":
		ops.Get(key)
	case "exists":
		ops.Exists(key)
	case "delete":
		ops.Delete(key)
	case "scan":
		opt := mondis.ProviderScanOption{Reverse: o.Rev, Prefix: trace.UnK(o.Prefix)}
		if o.PfxNil && len(o.Prefix) == 0 {
			opt.Prefix = nil
		}
		if o.HasOff {
			opt.Offset = trace.UnK(o.Off)
		}
		ops.(LimitScanner).ScanLimit(opt, o.Stop)
	default:
		trace.Fatal("unknown op %+v", o)
	}
}

// LimitScanner is implemented by remote targets.
type LimitScanner interface {
	ScanLimit(opt mondis.ProviderScanOption, limit int) ([]mondis.Entry, error)
}

// End abandons whatever is still open.
func (r *Runner) End() {
	if r.Dead {
		return
	}
	trace.Guard(func() string {
		for _, tx := range r.txns {
			tx.Discard()
		}
		return ""
	})
}

// Tx is the open transaction t.
func (r *Runner) Tx(t int) Tx { return r.txns[t] }
