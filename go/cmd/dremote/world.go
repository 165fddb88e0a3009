package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/client"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/mondis/server"
	"mondisverif/kvx"
	"mondisverif/trace"
)

// target is one way to reach the store.
type target interface {
	mondis.ProviderKVOP
	kvx.LimitScanner
}

// rtx is a transaction of a session.
type rtx interface {
	kvx.Tx
	kvx.LimitScanner
}

// session is a client.
type session interface {
	ops() target
	begin(upd bool) rtx
}

// host is this process's own loopback address: nobody else's clients come here
var host = func() string {
	p := os.Getpid()
	h := fmt.Sprintf("127.%d.%d.%d", 1+p>>16%250, p>>8%256, 1+p%256%250)
	ln, err := net.Listen("tcp", h+":0")
	if err != nil {
		return "127.0.0.1"
	}
	ln.Close()
	return h
}()

// freeAddr finds a port below the range the system hands out.
func freeAddr() string {
	for i := 0; ; i++ {
		n := atomic.AddInt64(&portSeq, 1)
		a := fmt.Sprintf("%s:%d", host, 20000+(int64(os.Getpid())*101+n*7)%12000)
		ln, err := net.Listen("tcp", a)
		if err == nil {
			ln.Close()
			return a
		}
		if i > 20000 {
			trace.Fatal("no free port: %v", err)
		}
	}
}

var portSeq int64

// ---- the package's client

type clOps struct{ o mondis.KVOP }

func (c clOps) Set(k, v []byte, m *mondis.VMetaReq) error      { return c.o.Set(k, v, m) }
func (c clOps) Get(k []byte) ([]byte, mondis.VMetaResp, error) { return c.o.Get(k) }
func (c clOps) Exists(k []byte) (bool, error)                  { return c.o.Exists(k) }
func (c clOps) Delete(k []byte) error                          { return c.o.Delete(k) }
func (c clOps) Scan(mondis.ProviderScanOption, func(k, v []byte, m mondis.VMetaResp) bool) error {
	panic("harness: ScanLimit only")
}
func (c clOps) ScanLimit(opt mondis.ProviderScanOption, n int) ([]mondis.Entry, error) {
	return c.o.Scan(mondis.ScanOption{ProviderScanOption: opt, Limit: n})
}

type pkgSession struct{ cl mondis.Client }

func newPkg(addr string) *pkgSession { return &pkgSession{client.New(addr, client.Option{})} }

func (s *pkgSession) ops() target { return clOps{s.cl} }

// pkgTxn runs Update or View in a goroutine of its own and feeds it one operation at a time.
type pkgTxn struct {
	upd  bool
	do   chan func(mondis.KVOP)
	end  chan error // what the function returns
	fin  chan finished
	over bool
}
type finished struct {
	err error
	pan interface{}
}

// what a function gives up with: nothing may be made of what the error is
var giveUps = []error{errors.New("harness: give up"), kv.ErrKeyNotFound, kv.ErrTxnTooBig, io.EOF, context.Canceled, context.DeadlineExceeded,
	&net.OpError{Op: "read", Err: os.ErrDeadlineExceeded}, client.ErrMutateForROTxn, errPanic}
var errPanic = errors.New("harness: panic")
var gaveUp int64

func (s *pkgSession) begin(upd bool) rtx {
	t := &pkgTxn{upd: upd, do: make(chan func(mondis.KVOP)), end: make(chan error, 1), fin: make(chan finished, 1)}
	fn := func(x mondis.Txn) error {
		for {
			select {
			case f := <-t.do:
				f(x)
			case err := <-t.end:
				if err == errPanic {
					panic(errPanic)
				}
				return err
			}
		}
	}
	go func() {
		var f finished
		defer func() {
			f.pan = recover()
			t.fin <- f
		}()
		if upd {
			f.err = s.cl.Update(fn)
		} else {
			f.err = s.cl.View(fn)
		}
	}()
	return t
}

// run one operation inside the function; what it panics with, the caller panics with
func (t *pkgTxn) run(f func(o clOps)) {
	done := make(chan interface{}, 1)
	t.do <- func(x mondis.KVOP) {
		defer func() { done <- recover() }()
		f(clOps{x})
	}
	if p := <-done; p != nil {
		panic(p)
	}
}
func (t *pkgTxn) Set(k, v []byte, m *mondis.VMetaReq) (err error) {
	t.run(func(o clOps) { err = o.Set(k, v, m) })
	return
}
func (t *pkgTxn) Get(k []byte) (v []byte, m mondis.VMetaResp, err error) {
	t.run(func(o clOps) { v, m, err = o.Get(k) })
	return
}
func (t *pkgTxn) Exists(k []byte) (b bool, err error) {
	t.run(func(o clOps) { b, err = o.Exists(k) })
	return
}
func (t *pkgTxn) Delete(k []byte) (err error) {
	t.run(func(o clOps) { err = o.Delete(k) })
	return
}
func (t *pkgTxn) Scan(mondis.ProviderScanOption, func(k, v []byte, m mondis.VMetaResp) bool) error {
	panic("harness: ScanLimit only")
}
func (t *pkgTxn) ScanLimit(opt mondis.ProviderScanOption, n int) (es []mondis.Entry, err error) {
	t.run(func(o clOps) { es, err = o.ScanLimit(opt, n) })
	return
}
func (t *pkgTxn) finish(err error) error {
	if t.over {
		return errGone
	}
	t.over = true
	t.end <- err
	f := <-t.fin
	if f.pan != nil {
		panic(f.pan)
	}
	return f.err
}

// Commit lets the function return nil.
func (t *pkgTxn) Commit() error { return t.finish(nil) }

// Discard lets the function return an error, which has to come back.
func (t *pkgTxn) Discard() {
	with := giveUps[int(atomic.AddInt64(&gaveUp, 1))%len(giveUps)]
	defer func() {
		if p := recover(); p != nil && p != errPanic {
			panic(p)
		}
	}()
	if err := t.finish(with); err != with && with != errPanic {
		panic(fmt.Sprintf("the error of the function, %v, was replaced by %v", with, err))
	}
}

// ---- the server

// countDB counts the transactions that are open.
type countDB struct {
	mondis.KVDB
	open  *int64
	cap   int          // a transaction writes at most that many keys
	fault atomic.Value // "", "before" or "after": the next operation fails
}

// failing tells whether the operation about to run (or just run) has to fail
func (d *countDB) failing(when string) error {
	if f, _ := d.fault.Load().(string); f == when {
		d.fault.Store("")
		return kvx.ErrInjected
	}
	return nil
}
func (d *countDB) Set(k, v []byte, m *mondis.VMetaReq) error {
	if err := d.failing("before"); err != nil {
		return err
	}
	return d.KVDB.Set(k, v, m)
}
func (d *countDB) Delete(k []byte) error {
	if err := d.failing("before"); err != nil {
		return err
	}
	return d.KVDB.Delete(k)
}
func (d *countDB) Get(k []byte) (v []byte, m mondis.VMetaResp, err error) {
	if err = d.failing("before"); err == nil {
		v, m, err = d.KVDB.Get(k)
	}
	return
}
func (d *countDB) Exists(k []byte) (b bool, err error) {
	if err = d.failing("before"); err == nil {
		b, err = d.KVDB.Exists(k)
	}
	return
}
func (d *countDB) scan(o mondis.ProviderKVOP, opt mondis.ProviderScanOption, fn func(k, v []byte, m mondis.VMetaResp) bool) error {
	err := d.failing("before")
	if err == nil {
		err = o.Scan(opt, fn)
	}
	if err == nil {
		err = d.failing("after") // having shown what there is
	}
	return err
}
func (d *countDB) Scan(opt mondis.ProviderScanOption, fn func(k, v []byte, m mondis.VMetaResp) bool) error {
	return d.scan(d.KVDB, opt, fn)
}

type countTxn struct {
	mondis.ProviderTxn
	db   *countDB
	once sync.Once
	keys map[string]bool
}

func (t *countTxn) full(k []byte) bool {
	if t.db.cap == 0 || len(k) == 0 || t.keys[string(k)] {
		return false
	}
	return len(t.keys) >= t.db.cap
}
func (t *countTxn) wrote(k []byte, err error) error {
	if err == nil {
		t.keys[string(k)] = true
	}
	return err
}
func (t *countTxn) Get(k []byte) (v []byte, m mondis.VMetaResp, err error) {
	if err = t.db.failing("before"); err == nil {
		v, m, err = t.ProviderTxn.Get(k)
	}
	return
}
func (t *countTxn) Exists(k []byte) (b bool, err error) {
	if err = t.db.failing("before"); err == nil {
		b, err = t.ProviderTxn.Exists(k)
	}
	return
}
func (t *countTxn) Scan(opt mondis.ProviderScanOption, fn func(k, v []byte, m mondis.VMetaResp) bool) error {
	return t.db.scan(t.ProviderTxn, opt, fn)
}
func (t *countTxn) Set(k, v []byte, m *mondis.VMetaReq) error {
	if err := t.db.failing("before"); err != nil {
		return err
	}
	if t.full(k) {
		return kv.ErrTxnTooBig
	}
	return t.wrote(k, t.ProviderTxn.Set(k, v, m))
}
func (t *countTxn) Delete(k []byte) error {
	if err := t.db.failing("before"); err != nil {
		return err
	}
	if t.full(k) {
		return kv.ErrTxnTooBig
	}
	return t.wrote(k, t.ProviderTxn.Delete(k))
}

func (d *countDB) NewTransaction(upd bool) mondis.ProviderTxn {
	atomic.AddInt64(d.open, 1)
	return &countTxn{ProviderTxn: d.KVDB.NewTransaction(upd), db: d, keys: map[string]bool{}}
}
func (t *countTxn) down() { t.once.Do(func() { atomic.AddInt64(t.db.open, -1) }) }
func (t *countTxn) Commit() error {
	if err := t.db.failing("before"); err != nil {
		return err
	}
	err := t.ProviderTxn.Commit()
	t.down()
	return err
}
func (t *countTxn) Discard() {
	t.ProviderTxn.Discard()
	t.down()
}

// localOps is the server's own view of its store.
type localOps struct{ mondis.KVDB }

func (l localOps) ScanLimit(opt mondis.ProviderScanOption, n int) (es []mondis.Entry, err error) {
	if n <= 0 {
		return
	}
	if n > mondis.MaxEntry {
		n = mondis.MaxEntry
	}
	err = l.Scan(opt, func(k, v []byte, m mondis.VMetaResp) bool {
		es = append(es, mondis.Entry{Key: append([]byte{}, k...), Value: append([]byte{}, v...), Meta: m})
		return len(es) < n
	})
	return
}

type client1 struct {
	s    session
	p    *proxy
	down bool // not known to work
}

type tinfo struct {
	c     int
	upd   bool
	first bool
	dead  bool // its session broke
}

// world is a server with its clients.
type world struct {
	w      *trace.W
	r      *rand.Rand
	dir    string
	addr   string
	db     *countDB
	cap    int
	srv    server.KVServer
	served chan error
	cl     []*client1 // 1..; 0 is the server's own view
	txs    map[int]*tinfo
	nextT  int
	run    *kvx.Runner
	cur    int
	up     bool
}

func newWorld(w *trace.W, r *rand.Rand, cap int) *world {
	wd := &world{w: w, r: r, cap: cap, dir: trace.Scratch("rem"), addr: freeAddr(), txs: map[int]*tinfo{}, cl: []*client1{nil}}
	w.Reset(trace.Ev{"prov": "remote", "cap": cap})
	wd.run = kvx.Resume(wd, w)
	wd.boot()
	wd.emit(trace.Ev{"e": "connect", "c": 0, "r": "ok"})
	wd.emit(trace.Ev{"e": "sync", "c": 0, "r": "ok"})
	return wd
}

// newBare is a server without clients, for the traces of Session.tla.
func newBare(w *trace.W, r *rand.Rand) *world {
	wd := &world{w: w, r: r, dir: trace.Scratch("rem"), addr: freeAddr(), txs: map[int]*tinfo{}, cl: []*client1{nil}}
	w.Reset(nil)
	if !wd.boot() {
		trace.Fatal("the server does not start")
	}
	return wd
}

func (wd *world) emit(e trace.Ev) { wd.w.Emit(e); wd.w.Flush() }

// boot starts the server, true if it serves
func (wd *world) boot() (ok bool) {
	open := new(int64)
	wd.db = &countDB{KVDB: provider.NewBadger(), open: open, cap: wd.cap}
	wd.srv = server.New(wd.addr, wd.db, server.Option{}, mondis.KVOption{Dir: wd.dir})
	wd.served = make(chan error, 1)
	srv := wd.srv
	ch := wd.served
	go func() { ch <- srv.Start() }()
	for i := 0; i < 1000; i++ {
		c, err := net.Dial("tcp", wd.addr)
		if err == nil {
			c.Close()
			wd.up = true
			return true
		}
		select {
		case err := <-ch:
			fmt.Fprintln(os.Stderr, "server start:", err)
			return false
		case <-time.After(20 * time.Millisecond):
		}
	}
	return false
}

// kvx.Target
func (wd *world) Prov() string { return "remote" }
func (wd *world) DB() mondis.ProviderKVOP {
	if wd.cur == 0 {
		return localOps{wd.db}
	}
	return wd.cl[wd.cur].s.ops()
}
func (wd *world) Begin(upd bool) (kvx.Tx, error) { return wd.cl[wd.cur].s.begin(upd), nil }
func (wd *world) WB() mondis.ProviderWriteBatch  { panic("harness") }
func (wd *world) Reopen(string) error            { panic("harness") }
func (wd *world) Close() error                   { panic("harness") }

// connect adds a client, raw or the package's
func (wd *world) connect(raw bool) int {
	c := &client1{p: newProxy(wd.addr)}
	r, _ := trace.Guard(func() string {
		if raw {
			c.s = newRaw(c.p)
		} else {
			c.s = newPkg(c.p.addr)
		}
		return "ok"
	})
	wd.cl = append(wd.cl, c)
	n := len(wd.cl) - 1
	wd.emit(trace.Ev{"e": "connect", "c": n, "r": r})
	wd.sync(n)
	return n
}

// sync waits until the session works (again)
func (wd *world) sync(c int) {
	r := "ok"
	if c > 0 {
		r = "timeout"
		until := time.Now().Add(30 * time.Second)
		for time.Now().Before(until) && r != "ok" {
			r, _ = trace.Guard(func() string {
				_, err := wd.cl[c].s.ops().Exists([]byte("sync"))
				if err != nil {
					return "err"
				}
				return "ok"
			})
			if r == "panic" || r == "hang" {
				break
			}
			if r != "ok" {
				time.Sleep(10 * time.Millisecond)
			}
		}
		wd.cl[c].down = r != "ok"
	}
	if r != "ok" {
		wd.run.Dead = true
	}
	wd.emit(trace.Ev{"e": "sync", "c": c, "r": r})
}

func (wd *world) begin(c int, upd bool) int {
	wd.nextT++
	t := wd.nextT
	wd.txs[t] = &tinfo{c: c, upd: upd}
	wd.do(kvx.Op{E: "begin", T: t, Upd: upd, C: c})
	return t
}

func writes(o kvx.Op) bool { return o.E == "set" || o.E == "delete" }

// do executes one operation of session o.C
func (wd *world) do(o kvx.Op) {
	if wd.run.Dead {
		return
	}
	if x := wd.txs[o.T]; x != nil {
		o.C = x.c
		if !x.first && o.E != "begin" && o.E != "commit" && o.E != "discard" {
			if writes(o) && !x.upd || o.E == "scan" && o.Stop <= 0 {
				// answered without asking the server
			} else {
				if x.dead {
					return
				}
				x.first = true
				wd.emit(trace.Ev{"e": "first", "t": o.T})
			}
		}
		if o.E == "commit" || o.E == "discard" {
			defer delete(wd.txs, o.T)
		}
	}
	wd.cur = o.C
	wd.run.Extra = trace.Ev{"c": o.C}
	wd.run.Run(o)
}

// faulty executes one operation the store of the server fails
func (wd *world) faulty(o kvx.Op) {
	if wd.run.Dead {
		return
	}
	x := wd.txs[o.T]
	if x != nil {
		o.C = x.c
	}
	if o.C == 0 || wd.cl[o.C].down || x != nil && (x.dead || !x.upd && writes(o) || o.E == "commit" && (!x.upd || !x.first)) || o.E == "scan" && o.Stop <= 0 {
		return
	}
	if x != nil && !x.first {
		x.first = true
		wd.emit(trace.Ev{"e": "first", "t": o.T})
	}
	when := "before"
	if o.E == "scan" && wd.r.Intn(2) == 0 {
		when = "after"
	}
	wd.db.fault.Store(when)
	wd.cur = o.C
	wd.run.Extra = trace.Ev{"c": o.C, "when": when}
	wd.run.As = "faulty"
	wd.run.Run(o)
	wd.run.As = ""
	if left, _ := wd.db.fault.Load().(string); left != "" { // it was answered without the store
		wd.db.fault.Store("")
	}
	if o.E == "commit" {
		delete(wd.txs, o.T)
	}
}

// lost executes one operation while the connection is cut around it
func (wd *world) lost(o kvx.Op, mode string) {
	if wd.run.Dead {
		return
	}
	if x := wd.txs[o.T]; x != nil {
		o.C = x.c
		if !x.first { // its first request
			x.first = true
			wd.emit(trace.Ev{"e": "first", "t": o.T})
		}
	}
	wd.cl[o.C].p.arm(mode)
	wd.cur = o.C
	wd.run.Extra = trace.Ev{"c": o.C, "mode": mode}
	wd.run.As = "lost"
	wd.run.Run(o)
	wd.run.As = ""
	if o.E == "commit" || o.E == "discard" {
		delete(wd.txs, o.T)
	}
	wd.broken(o.C)
}

func (wd *world) broken(c int) {
	wd.cl[c].down = true
	for _, x := range wd.txs {
		if x.c == c {
			x.dead = true
		}
	}
}

// brk cuts the connection of a session
func (wd *world) brk(c int) {
	wd.cl[c].p.cut()
	wd.emit(trace.Ev{"e": "break", "c": c})
	wd.broken(c)
}

// abandon ends the transactions of broken sessions
func (wd *world) abandon() {
	for t := 1; t <= wd.nextT; t++ {
		x := wd.txs[t]
		if x == nil || !x.dead {
			continue
		}
		if wd.r.Intn(2) == 0 && x.first {
			wd.do(wd.anyOp(t, x.upd))
		}
		wd.do(kvx.Op{E: []string{"commit", "discard"}[wd.r.Intn(2)], T: t})
	}
}

var ks = [][]int{{1}, {1, 255}, {2}, {255}}

func (wd *world) anyOp(t int, upd bool) kvx.Op {
	k := ks[wd.r.Intn(len(ks))]
	switch wd.r.Intn(4) {
	case 0:
		return kvx.Op{E: "set", T: t, K: k, V: "01", TTL: "none"}
	case 1:
		return kvx.Op{E: "delete", T: t, K: k}
	case 2:
		return kvx.Op{E: "exists", T: t, K: k}
	}
	return kvx.Op{E: "get", T: t, K: k}
}

// idle waits until the server holds no transaction it should not hold
func (wd *world) idle() {
	if wd.run.Dead {
		return
	}
	want := int64(0)
	for _, x := range wd.txs {
		if x.first && !x.dead {
			want++
		}
	}
	n := atomic.LoadInt64(wd.db.open)
	for i := 0; i < 1500 && n != want; i++ {
		time.Sleep(10 * time.Millisecond)
		n = atomic.LoadInt64(wd.db.open)
	}
	wd.emit(trace.Ev{"e": "idle", "n": n})
}

// dump shows the store as the server itself sees it
func (wd *world) dump() {
	if !wd.up || wd.run.Dead {
		return
	}
	wd.emit(trace.Ev{"e": "sync", "c": 0, "r": "ok"})
	wd.do(kvx.Op{E: "scan", C: 0, Stop: 1000, PfxNil: true})
}

func (wd *world) stop() {
	if wd.run.Dead {
		return
	}
	srv, ch := wd.srv, wd.served
	r, d := trace.Guard(func() string {
		if err := srv.Stop(); err != nil {
			return "err: " + err.Error()
		}
		return "ok"
	})
	if r == "ok" {
		select { // Start comes back, too, unless the reader of some connection got stuck
		case <-ch:
		case <-time.After(3 * time.Second):
		}
	}
	wd.up = false
	for c := 1; c < len(wd.cl); c++ {
		wd.cl[c].p.close()
		wd.broken(c)
	}
	wd.emit(trace.Ev{"e": "stop", "r": r, "detail": d})
	if r != "ok" {
		wd.run.Dead = true
	}
}

func (wd *world) start() {
	if wd.run.Dead {
		return
	}
	r := "ok"
	if !wd.boot() {
		r = "err"
		wd.run.Dead = true
	}
	for c := 1; c < len(wd.cl); c++ {
		wd.cl[c].p.listen()
	}
	wd.emit(trace.Ev{"e": "start", "r": r})
}

// end lets go of everything
func (wd *world) end() {
	for _, c := range wd.cl[1:] {
		c.p.close()
	}
	if wd.up {
		srv := wd.srv
		trace.Guard(func() string { srv.Stop(); return "" })
	}
	os.RemoveAll(wd.dir)
}
