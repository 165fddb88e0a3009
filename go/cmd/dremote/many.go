package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"
	"github.com/zhiqiangxu/mondis/provider"
	"github.com/zhiqiangxu/mondis/server"
	"mondisverif/kvx"
	"mondisverif/trace"
)

// private: goroutines with keys of their own, sharing clients; each must see a store of its own.
func private(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r, 0)
	a, b := wd.connect(false), wd.connect(true)
	const lanes = 8
	ps := make([]string, lanes)
	var wg sync.WaitGroup
	for i := 0; i < lanes; i++ {
		i := i
		lr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			ps[i] = fmt.Sprintf("%s/lane", trace.Scratch("lane"))
			pw := trace.Open(ps[i])
			defer pw.Close()
			// a world of its own on the same server
			x := &world{w: pw, r: lr, db: wd.db, txs: map[int]*tinfo{}, cl: []*client1{nil, wd.cl[a], wd.cl[b]}, up: true}
			pw.Reset(trace.Ev{"prov": "remote", "cap": 0})
			x.run = kvx.Resume(x, pw)
			for c := 0; c <= 2; c++ {
				x.emit(trace.Ev{"e": "connect", "c": c, "r": "ok"})
				x.emit(trace.Ev{"e": "sync", "c": c, "r": "ok"})
			}
			g := kvx.NewGen(lr, false, 4)
			for j := range g.Keys {
				g.Keys[j] = append([]int{100 + i}, g.Keys[j]...)
			}
			for j := 0; j < 60 && !x.run.Dead; j++ {
				t := 0
				if lr.Intn(4) == 0 {
					t = x.begin(1+lr.Intn(2), lr.Intn(3) > 0)
				}
				for n := 0; n < 1 || t > 0 && n < 4; n++ {
					o := x.op(g, t, 1+lr.Intn(2), lr.Intn(5) == 0)
					o.K = own(o.K, i)
					o.Prefix = own(o.Prefix, i)
					o.PfxNil = false
					if o.HasOff {
						o.Off = own(o.Off, i)
					}
					x.do(o)
				}
				if t > 0 {
					x.do(kvx.Op{E: []string{"commit", "discard"}[lr.Intn(2)], T: t})
				}
			}
		}()
	}
	wg.Wait()
	wd.end()
	for _, p := range ps {
		w.Append(p)
	}
}

// own makes it a key of lane i
func own(k []int, i int) []int {
	if len(k) > 0 && k[0] == 100+i {
		return k
	}
	return append([]int{100 + i}, k...)
}

type tev struct {
	at  int // counter value it saw
	ro  bool
	seq int
	evs []trace.Ev
}

// parallel: transactions on shared clients all reading, most of them increasing, one counter; what they
// saw is replayed in the order of the counter.
func parallel(w *trace.W, r *rand.Rand) {
	wd := newWorld(w, r, 0)
	defer wd.end()
	for i := 0; i < 3; i++ {
		wd.connect(i == 2)
	}
	ctr := []byte{50}
	wd.do(kvx.Op{E: "set", C: 1, K: []int{50}, V: "30", TTL: "none"}) // "0"
	var mu sync.Mutex
	var all []tev
	var seq int
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		lr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for n := 0; n < 12; n++ {
				x := tev{ro: lr.Intn(4) == 0}
				c := 1 + lr.Intn(3)
				var bad trace.Ev
				get := func(t rtx, k []byte) (v []byte, err error) {
					e := trace.Ev{"e": "get", "c": c, "k": trace.K(k), "v": "", "tag": 0, "exp": "none", "r": "ok"}
					v, m, err := t.Get(k)
					switch err {
					case nil:
						e["v"], e["tag"] = trace.V(v), int(m.Tag)
					case kv.ErrKeyNotFound:
						e["r"], err = "notfound", nil
					default:
						e["r"], bad = "err", e
					}
					x.evs = append(x.evs, e)
					return
				}
				res, d := trace.Guard(func() string {
					t := wd.cl[c].s.begin(!x.ro)
					v, err := get(t, ctr)
					if err != nil {
						t.Discard()
						return "err"
					}
					x.at, _ = strconv.Atoi(string(v))
					for j := lr.Intn(4); j >= 0; j-- {
						k := []byte{60, byte(lr.Intn(3))}
						if x.ro || lr.Intn(2) == 0 {
							if _, err = get(t, k); err != nil {
								t.Discard()
								return "err"
							}
							continue
						}
						val := []byte{byte(lr.Intn(256)), byte(lr.Intn(256))}
						e := trace.Ev{"e": "set", "c": c, "k": trace.K(k), "v": trace.V(val), "meta": true, "tag": j, "ttl": "none", "r": "ok"}
						x.evs = append(x.evs, e)
						if err = t.Set(k, val, &mondis.VMetaReq{Tag: byte(j)}); err != nil {
							e["r"], bad = "err", e
							t.Discard()
							return "err"
						}
					}
					if !x.ro {
						val := []byte(strconv.Itoa(x.at + 1))
						e := trace.Ev{"e": "set", "c": c, "k": trace.K(ctr), "v": trace.V(val), "meta": false, "tag": 0, "ttl": "none", "r": "ok"}
						x.evs = append(x.evs, e)
						if err = t.Set(ctr, val, nil); err != nil {
							e["r"], bad = "err", e
							t.Discard()
							return "err"
						}
					}
					return kvx.ErrClass(t.Commit())
				})
				if res == "conflict" && !x.ro && bad == nil {
					continue
				}
				mu.Lock()
				if res != "ok" {
					x.evs = append(x.evs, trace.Ev{"e": "commit", "c": c, "r": res, "detail": d})
				} else {
					x.evs = append(x.evs, trace.Ev{"e": "commit", "c": c, "r": "ok"})
				}
				seq++
				x.seq = seq
				all = append(all, x)
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if wd.run.Dead {
		return
	}
	// readers of state n come after the writer that made it (which saw n-1), before the one that saw n
	sort.SliceStable(all, func(i, j int) bool {
		a, b := all[i], all[j]
		if a.at != b.at {
			return a.at < b.at
		}
		return a.ro && !b.ro
	})
	for _, x := range all {
		wd.nextT++
		c := x.evs[0]["c"]
		wd.emit(trace.Ev{"e": "begin", "c": c, "t": wd.nextT, "upd": !x.ro, "r": "ok"})
		wd.emit(trace.Ev{"e": "first", "t": wd.nextT})
		for _, e := range x.evs {
			e["t"] = wd.nextT
			wd.emit(e)
		}
	}
	wd.finish()
}

// ---- a server in a process of its own

func beServer() {
	srv := server.New(*addr, provider.NewBadger(), server.Option{}, mondis.KVOption{Dir: *dir})
	ch := make(chan os.Signal, 1)
	signal.Notify(ch, syscall.SIGTERM)
	res := make(chan error, 1)
	go func() {
		err := srv.Start()
		res <- err
	}()
	select {
	case <-ch:
	case err := <-res:
		fmt.Fprintln(os.Stderr, "start:", err)
		os.Exit(4)
	}
	if err := srv.Stop(); err != nil {
		fmt.Fprintln(os.Stderr, "stop:", err)
		os.Exit(5)
	}
	os.Exit(0)
}

const groupN = 3

func spawn(dir, addr string) *exec.Cmd {
	self, err := os.Executable()
	trace.Must(err, "self")
	cmd := exec.Command(self, "-serve", "-dir", dir, "-addr", addr)
	cmd.Stderr = os.Stderr
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	trace.Must(cmd.Start(), "spawn server")
	return cmd
}

// process: clients write while the server's process is told to stop, or killed.
func process(w *trace.W, r *rand.Rand) {
	wd := &world{w: w, r: r, dir: trace.Scratch("rem"), addr: freeAddr(), txs: map[int]*tinfo{}, cl: []*client1{nil}}
	w.Reset(trace.Ev{"prov": "remote", "cap": 0})
	wd.run = kvx.Resume(wd, w)
	defer os.RemoveAll(wd.dir)
	defer func() {
		for _, c := range wd.cl[1:] {
			c.p.close()
		}
	}()
	wd.emit(trace.Ev{"e": "connect", "c": 0, "r": "ok"})
	kill := r.Intn(3) == 0
	const writers = 4
	acked := make([]int64, writers)
	for life := 0; life < 2 && !wd.run.Dead; life++ {
		cmd := spawn(wd.dir, wd.addr)
		if life == 0 {
			for i := 0; i < writers; i++ {
				wd.connect(i == 3)
			}
		} else {
			for c := 1; c <= writers; c++ {
				wd.cl[c].p.listen()
			}
			wd.emit(trace.Ev{"e": "start", "r": "ok"})
			for c := 1; c <= writers; c++ {
				wd.sync(c)
			}
		}
		var stopping int32
		var wg sync.WaitGroup
		fails := make([]string, writers)
		for i := 0; i < writers; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for round := acked[i] + 1; ; round++ {
					t := wd.cl[i+1].s.begin(true)
					res, d := trace.Guard(func() string {
						for k := 0; k < groupN; k++ {
							if err := t.Set([]byte{byte(i + 1), byte(k)}, []byte(strconv.FormatInt(round, 10)), nil); err != nil {
								t.Discard()
								return "err"
							}
						}
						return kvx.ErrClass(t.Commit())
					})
					if res != "ok" {
						if atomic.LoadInt32(&stopping) == 0 || res != "err" {
							fails[i] = "write: " + res + " " + d
						}
						return
					}
					acked[i] = round
				}
			}()
		}
		time.Sleep(time.Duration(20+r.Intn(150)) * time.Millisecond)
		atomic.StoreInt32(&stopping, 1)
		if kill {
			cmd.Process.Kill()
		} else {
			cmd.Process.Signal(syscall.SIGTERM)
		}
		res, _ := trace.Guard(func() string {
			err := cmd.Wait()
			if err == nil || kill {
				return "ok"
			}
			return "crash: " + err.Error()
		})
		if res == "hang" {
			cmd.Process.Signal(syscall.SIGQUIT) // shows where
			time.Sleep(200 * time.Millisecond)
			cmd.Process.Kill()
			time.Sleep(200 * time.Millisecond)
		}
		for c := 1; c <= writers; c++ {
			wd.cl[c].p.close()
			wd.broken(c)
		}
		wg.Wait()
		for i, f := range fails {
			if f != "" {
				wd.emit(trace.Ev{"e": "sync", "c": i + 1, "r": f})
			}
		}
		wd.emit(trace.Ev{"e": "stop", "r": res})
		for c := 1; c <= writers; c++ {
			wd.do(kvx.Op{E: []string{"get", "set", "exists", "delete"}[c%4], C: c, K: []int{9}, V: "01", TTL: "none"})
			wd.do(kvx.Op{E: "scan", C: c, Stop: 5})
		}
		if wd.run.Dead {
			return
		}
		// what the store holds
		db := provider.NewBadger()
		got := []interface{}{}
		res, d := trace.Guard(func() string {
			if err := db.Open(mondis.KVOption{Dir: wd.dir}); err != nil {
				return "err: " + err.Error()
			}
			err := db.Scan(mondis.ProviderScanOption{}, func(k, v []byte, m mondis.VMetaResp) bool {
				n, _ := strconv.Atoi(string(v))
				e := trace.Ev{"w": 0, "i": 0, "round": n}
				if len(k) == 2 {
					e["w"], e["i"] = int(k[0]), int(k[1])
				}
				got = append(got, e)
				return true
			})
			if err != nil {
				return "err: " + err.Error()
			}
			return kvx.ErrClass(db.Close())
		})
		wd.emit(trace.Ev{"e": "liveimage", "r": res, "detail": d, "got": got, "acked": acked, "n": groupN})
	}
}
