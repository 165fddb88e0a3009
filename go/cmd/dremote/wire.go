package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"sync"
	"sync/atomic"
	"time"

	"mondisverif/trace"
)

// The frames themselves: streams of random frames on raw connections, many under way at a time.

const cmdNone = 77 // no such command

type wireStream struct {
	n, c     int // its number and connection
	id       uint64
	ops      []string // asked
	writes   [][]byte // keys it sets, if it is carried out
	upd      bool
	closed   bool // the client ended it
	ended    bool // nothing it sends counts any more
	bad      bool // it sent nonsense
	expected int  // answers, only to know how long to wait
	answers  int
}

type wireConn struct {
	n    int
	c    net.Conn
	up   bool
	bad  bool // nonsense has been sent on it
	next uint64
	gone chan bool // the reader has ended
}

type wire struct {
	wd  *world
	mu  sync.Mutex // protects what follows and the order of events
	cs  []*wireConn
	ss  []*wireStream
	key int
}

func (x *wire) emit(e trace.Ev) { x.wd.emit(e) }

func (x *wire) dial() *wireConn {
	c, err := net.Dial("tcp", x.wd.addr)
	trace.Must(err, "dial")
	x.mu.Lock()
	defer x.mu.Unlock()
	wc := &wireConn{n: len(x.cs) + 1, c: c, up: true, next: 1, gone: make(chan bool)}
	x.cs = append(x.cs, wc)
	go x.read(wc)
	return wc
}

var respNames = map[uint32]string{1: "set", 3: "exists", 5: "get", 7: "delete", 9: "commit", 11: "discard", 13: "scan"}

func (x *wire) read(wc *wireConn) {
	defer close(wc.gone)
	var h [16]byte
	for {
		if _, err := io.ReadFull(wc.c, h[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(h[:])
		var p []byte
		if n >= 12 && n < 1<<24 {
			p = make([]byte, n-12)
			if _, err := io.ReadFull(wc.c, p); err != nil {
				return
			}
		}
		id := binary.BigEndian.Uint64(h[4:])
		cf := binary.BigEndian.Uint32(h[12:])
		cmd, fl := cf&0xffffff, byte(cf>>24)
		a := respNames[cmd]
		if a == "" {
			a = fmt.Sprintf("cmd%d", cmd)
		}
		if fl&flRst != 0 {
			a = "reset"
		} else if fs, err := fields(p); err != nil {
			a = "garbled"
		} else if len(fs) > 0 && fs[0].n == 1 {
			switch {
			case fs[0].v == 1: // invalid request
				a = "bad"
			case fs[0].v != 0 && fs[0].v != 4:
				a += " failed"
			}
		}
		x.mu.Lock()
		s := 0
		for _, y := range x.ss {
			if y.c == wc.n && y.id == id {
				y.answers++
				s = y.n
			}
		}
		x.emit(trace.Ev{"e": "answer", "c": wc.n, "s": s, "a": a, "end": fl&flEnd != 0})
		x.mu.Unlock()
		if n < 12 || n >= 1<<24 {
			return
		}
	}
}

// frame makes one more frame of a stream (nil: a new one), and tells whether it has effects to look for.
func (x *wire) frame(r *rand.Rand, wc *wireConn, y *wireStream, op string, end bool) []byte {
	x.mu.Lock()
	defer x.mu.Unlock()
	if y.closed || !wc.up {
		return nil
	}
	first := len(y.ops) == 0
	key := []byte(fmt.Sprintf("w%d.%d", y.n, r.Intn(4)))
	var cmd uint32
	var p []byte
	switch op {
	case "set":
		x.key++
		key = []byte(fmt.Sprintf("w%d=%d", y.n, x.key))
		y.writes = append(y.writes, key)
		cmd, p = cmdSet, fBytes(fBytes(nil, 1, key), 2, make([]byte, r.Intn(3)*r.Intn(2000)))
	case "get":
		cmd, p = cmdGet, fBytes(nil, 1, key)
	case "exists":
		cmd, p = cmdExists, fBytes(nil, 1, key)
	case "delete":
		cmd, p = cmdDelete, fBytes(nil, 1, key)
	case "scan":
		cmd, p = cmdScan, fInt(fMsg(nil, 1, fBytes(nil, 2, key[:2])), 2, 3)
	case "commit":
		cmd = cmdCommit
	case "discard":
		cmd = cmdDiscard
	case "bad":
		cmd, p = []uint32{cmdSet, cmdExists, cmdGet, cmdDelete}[r.Intn(4)], []byte{0x0a, 0x05, 'a'}
	case "unknown":
		cmd = cmdNone
	}
	y.ops = append(y.ops, op)
	if !y.ended {
		switch {
		case (op == "commit" || op == "discard" || op == "bad" || op == "unknown") || end && first || !end:
			y.expected++
		default:
			y.expected += 2
		}
	}
	y.ended = y.ended || end || op == "commit" || op == "discard" || op == "bad" || op == "unknown"
	y.closed = end
	y.bad = y.bad || op == "bad" || op == "unknown" || first && (op == "commit" || op == "discard")
	wc.bad = wc.bad || y.bad
	x.emit(trace.Ev{"e": "ask", "c": wc.n, "s": y.n, "op": op, "end": end})
	fl := byte(flStream)
	if end {
		fl |= flEnd
	}
	if first && end && r.Intn(2) == 0 {
		fl = byte(r.Intn(2)) * flNB
	}
	if first && y.upd {
		cmd |= 1 << 16
	}
	return encode(y.id, cmd, fl, p)
}

func (x *wire) open(wc *wireConn, upd bool) *wireStream {
	x.mu.Lock()
	defer x.mu.Unlock()
	wc.next += 2
	y := &wireStream{n: len(x.ss) + 1, c: wc.n, id: wc.next, upd: upd}
	x.ss = append(x.ss, y)
	return y
}

// settled: every answer is there, and the transactions that wait are all there are
func (x *wire) settled() (bool, int64) {
	x.mu.Lock()
	defer x.mu.Unlock()
	open := atomic.LoadInt64(x.wd.db.open)
	want, ok := int64(0), true
	for _, y := range x.ss {
		if !x.cs[y.c-1].up {
			continue
		}
		ok = ok && y.answers == y.expected
		if len(y.ops) > 0 && !y.ended {
			want++
		}
	}
	return ok && open == want, open
}

func (x *wire) rest() {
	until := time.Now().Add(15 * time.Second)
	for {
		ok, n := x.settled()
		if ok || time.Now().After(until) {
			x.mu.Lock()
			x.emit(trace.Ev{"e": "rest", "n": n})
			x.mu.Unlock()
			return
		}
		time.Sleep(2 * time.Millisecond)
		for _, wc := range x.cs {
			select {
			case <-wc.gone:
				x.down(wc, "hangup")
			default:
			}
		}
	}
}

// down notes that a connection is no more; its reader has ended
func (x *wire) down(wc *wireConn, how string) {
	wc.c.Close()
	<-wc.gone
	x.mu.Lock()
	defer x.mu.Unlock()
	if wc.up {
		wc.up = false
		x.emit(trace.Ev{"e": how, "c": wc.n})
	}
}

// some picks a frame: mostly operations
func (x *wire) some(r *rand.Rand, y *wireStream, wild bool) (string, bool) {
	first := len(y.ops) == 0
	k := r.Intn(100)
	switch {
	case k < 12 && !first:
		return "commit", true
	case k < 20 && !first:
		return "discard", true
	case k < 25 && wild:
		if !first || r.Intn(2) == 0 {
			return "bad", r.Intn(2) == 0
		}
		return "unknown", r.Intn(2) == 0
	case k < 27 && wild && first:
		return []string{"commit", "discard"}[r.Intn(2)], true
	}
	op := []string{"set", "get", "exists", "delete", "scan"}[r.Intn(5)]
	if !y.upd || r.Intn(2) == 0 {
		op = []string{"get", "exists", "scan"}[r.Intn(3)]
	}
	if y.upd && r.Intn(3) == 0 {
		op = "set"
	}
	return op, r.Intn(12) == 0
}

// wires: frames of several streams on several connections, in bursts, with cuts and stops.
func wires(w *trace.W, r *rand.Rand) {
	wd := newBare(w, r)
	defer wd.end()
	x := &wire{wd: wd}
	conns := 1 + r.Intn(2)
	for i := 0; i < conns; i++ {
		x.dial()
	}
	wild := r.Intn(2) == 0
	live := map[int][]*wireStream{} // of a connection
	for round := 0; round < 4+r.Intn(8); round++ {
		for _, wc := range append([]*wireConn{}, x.cs...) {
			if !wc.up {
				continue
			}
			var burst []byte
			for k := r.Intn(12); k > 0; k-- {
				ys := live[wc.n]
				var y *wireStream
				if len(ys) == 0 || len(ys) < 5 && r.Intn(4) == 0 {
					y = x.open(wc, r.Intn(4) > 0)
					live[wc.n] = append(ys, y)
				} else {
					y = ys[r.Intn(len(ys))]
				}
				op, end := x.some(r, y, wild)
				burst = append(burst, x.frame(r, wc, y, op, end)...)
				if y.closed {
					for i, z := range live[wc.n] {
						if z == y {
							live[wc.n] = append(live[wc.n][:i:i], live[wc.n][i+1:]...)
							break
						}
					}
				}
			}
			if len(burst) == 0 {
				continue
			}
			if r.Intn(14) == 0 { // it breaks within what was sent
				wc.c.Write(burst[:r.Intn(len(burst)+1)])
				if r.Intn(2) == 0 {
					time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
				}
				x.down(wc, "cut")
				live[wc.n] = nil
				if r.Intn(2) == 0 {
					x.dial()
				}
			} else {
				wc.c.Write(burst)
			}
		}
		if r.Intn(3) == 0 {
			x.rest()
		}
	}
	switch r.Intn(4) {
	case 0: // the server stops, whatever is under way
		x.mu.Lock()
		x.emit(trace.Ev{"e": "stopping"})
		x.mu.Unlock()
		r, d := trace.Guard(func() string {
			if err := wd.srv.Stop(); err != nil {
				return "err: " + err.Error()
			}
			return "ok"
		})
		wd.up = false
		n := atomic.LoadInt64(wd.db.open)
		for _, wc := range x.cs {
			x.down(wc, "cut")
		}
		x.mu.Lock()
		x.emit(trace.Ev{"e": "stop", "r": r, "detail": d, "n": n})
		x.mu.Unlock()
		if r != "ok" {
			return
		}
		if !wd.boot() {
			trace.Fatal("the server does not start again")
		}
	case 1, 2:
		x.rest()
		fallthrough
	default:
		for _, wc := range x.cs {
			x.down(wc, "cut")
		}
		x.rest()
	}
	for _, y := range x.ss {
		in := 0
		for _, k := range y.writes {
			ok, err := wd.db.Exists(k)
			trace.Must(err, "looking at the store")
			if ok {
				in++
			}
		}
		if len(y.writes) > 0 {
			wr := "part"
			if in == 0 {
				wr = "none"
			} else if in == len(y.writes) {
				wr = "all"
			}
			x.emit(trace.Ev{"e": "fate", "s": y.n, "w": wr})
		}
	}
}
