package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"github.com/zhiqiangxu/mondis"
	"github.com/zhiqiangxu/mondis/kv"

	"mondisverif/kvx"
	"mondisverif/trace"
)

// A second client, written from the protocol: it shares no code with the package's client.

const (
	flStream = 1
	flEnd    = 2
	flRst    = 4
	flNB     = 8

	cmdSet, cmdExists, cmdGet, cmdDelete, cmdCommit, cmdDiscard, cmdScan = 0, 2, 4, 6, 8, 10, 12
)

var errGone = errors.New("raw: connection gone")

type rframe struct {
	cmd     uint32
	flags   byte
	payload []byte
}

type rawConn struct {
	c    net.Conn
	mu   sync.Mutex
	wait map[uint64]chan rframe
	dead bool
}

func dialRaw(addr string) (*rawConn, error) {
	c, err := net.Dial("tcp", addr)
	if err != nil {
		return nil, err
	}
	rc := &rawConn{c: c, wait: map[uint64]chan rframe{}}
	go rc.read()
	return rc, nil
}

func (rc *rawConn) read() {
	defer func() {
		rc.c.Close()
		rc.mu.Lock()
		rc.dead = true
		for _, ch := range rc.wait {
			close(ch)
		}
		rc.wait = nil
		rc.mu.Unlock()
	}()
	var h [16]byte
	for {
		if _, err := io.ReadFull(rc.c, h[:]); err != nil {
			return
		}
		n := binary.BigEndian.Uint32(h[:])
		if n < 12 {
			return
		}
		id := binary.BigEndian.Uint64(h[4:])
		cf := binary.BigEndian.Uint32(h[12:])
		p := make([]byte, n-12)
		if _, err := io.ReadFull(rc.c, p); err != nil {
			return
		}
		rc.mu.Lock()
		if ch := rc.wait[id]; ch != nil {
			select {
			case ch <- rframe{cf & 0xffffff, byte(cf >> 24), p}:
			default:
			}
		}
		rc.mu.Unlock()
	}
}

func (rc *rawConn) isDead() bool {
	rc.mu.Lock()
	defer rc.mu.Unlock()
	return rc.dead
}

func encode(id uint64, cmd uint32, flags byte, payload []byte) []byte {
	b := make([]byte, 16, 16+len(payload))
	binary.BigEndian.PutUint32(b, uint32(12+len(payload)))
	binary.BigEndian.PutUint64(b[4:], id)
	binary.BigEndian.PutUint32(b[12:], uint32(flags)<<24|cmd)
	return append(b, payload...)
}

// ask sends one frame and waits for one answer on its stream
func (rc *rawConn) ask(id uint64, cmd uint32, flags byte, payload []byte) (rframe, error) {
	rc.mu.Lock()
	if rc.dead {
		rc.mu.Unlock()
		return rframe{}, errGone
	}
	ch := rc.wait[id]
	if ch == nil {
		ch = make(chan rframe, 64)
		rc.wait[id] = ch
	}
	rc.mu.Unlock()
	if cmd != cmdSent {
		if _, err := rc.c.Write(encode(id, cmd, flags, payload)); err != nil {
			return rframe{}, errGone
		}
	}
	f, ok := <-ch
	if !ok {
		return rframe{}, errGone
	}
	if f.flags&flRst != 0 {
		return f, errors.New("raw: reset")
	}
	return f, nil
}

func (rc *rawConn) done(id uint64) {
	rc.mu.Lock()
	delete(rc.wait, id)
	rc.mu.Unlock()
}

// ---- protobuf by hand

func uv(b []byte, x uint64) []byte {
	for x >= 0x80 {
		b = append(b, byte(x)|0x80)
		x >>= 7
	}
	return append(b, byte(x))
}
func fBytes(b []byte, n int, v []byte) []byte {
	if len(v) == 0 {
		return b
	}
	return append(uv(uv(b, uint64(n)<<3|2), uint64(len(v))), v...)
}
func fMsg(b []byte, n int, v []byte) []byte {
	return append(uv(uv(b, uint64(n)<<3|2), uint64(len(v))), v...)
}
func fInt(b []byte, n int, v uint64) []byte {
	if v == 0 {
		return b
	}
	return uv(uv(b, uint64(n)<<3), v)
}

type field struct {
	n int
	v uint64
	b []byte
}

func fields(b []byte) (fs []field, err error) {
	get := func() (x uint64) {
		for s := uint(0); ; s += 7 {
			if len(b) == 0 || s > 63 {
				err = errors.New("raw: bad varint in answer")
				return
			}
			c := b[0]
			b = b[1:]
			x |= uint64(c&0x7f) << s
			if c < 0x80 {
				return
			}
		}
	}
	for len(b) > 0 && err == nil {
		k := get()
		f := field{n: int(k >> 3)}
		switch k & 7 {
		case 0:
			f.v = get()
		case 2:
			n := get()
			if err == nil && n > uint64(len(b)) {
				err = errors.New("raw: short answer")
				return
			}
			if err == nil {
				f.b, b = b[:n], b[n:]
			}
		default:
			err = errors.New("raw: bad field in answer")
		}
		fs = append(fs, f)
	}
	return
}

// head splits an answer into code error and the other fields
func head(p []byte) (rest []field, err error) {
	fs, err := fields(p)
	if err != nil {
		return nil, err
	}
	code, msg := uint64(0), ""
	for _, f := range fs {
		switch f.n {
		case 1:
			code = f.v
		case 2:
			msg = string(f.b)
		default:
			rest = append(rest, f)
		}
	}
	switch {
	case code == 0:
	case code == 3:
		err = kv.ErrTxnTooBig
	case code == 4:
		err = kv.ErrKeyNotFound
	default:
		err = errors.New(msg)
	}
	return
}

func metaResp(b []byte) (m mondis.VMetaResp, err error) {
	fs, err := fields(b)
	for _, f := range fs {
		if f.n == 1 {
			m.ExpiresAt = f.v
		}
		if f.n == 2 {
			m.Tag = byte(f.v)
		}
	}
	return
}

// asker is a stream or the connection itself
type asker func(cmd uint32, payload []byte) (rframe, error)

type rawOps struct {
	ask   asker
	quiet bool // in a transaction
}

func (o rawOps) Set(k, v []byte, m *mondis.VMetaReq) error {
	p := fBytes(fBytes(nil, 1, k), 2, v)
	if m != nil {
		p = fMsg(p, 3, fInt(fInt(nil, 1, uint64(m.TTL)), 2, uint64(m.Tag)))
	}
	f, err := o.ask(cmdSet, p)
	if err != nil {
		return err
	}
	_, err = head(f.payload)
	return err
}
func (o rawOps) Delete(k []byte) error {
	f, err := o.ask(cmdDelete, fBytes(nil, 1, k))
	if err != nil {
		return err
	}
	_, err = head(f.payload)
	return err
}
func (o rawOps) Exists(k []byte) (b bool, err error) {
	f, err := o.ask(cmdExists, fBytes(nil, 1, k))
	if err != nil {
		return
	}
	fs, err := head(f.payload)
	for _, x := range fs {
		if x.n == 3 {
			b = x.v != 0
		}
	}
	return
}
func (o rawOps) Get(k []byte) (v []byte, m mondis.VMetaResp, err error) {
	f, err := o.ask(cmdGet, fBytes(nil, 1, k))
	if err != nil {
		return
	}
	fs, err := head(f.payload)
	if err != nil {
		return
	}
	for _, x := range fs {
		switch x.n {
		case 3:
			v = x.b
		case 4:
			m, err = metaResp(x.b)
		}
	}
	return
}
func (o rawOps) ScanLimit(opt mondis.ProviderScanOption, limit int) (es []mondis.Entry, err error) {
	if limit <= 0 && o.quiet { // asking would begin the transaction
		return
	}
	rev := uint64(0)
	if opt.Reverse {
		rev = 1
	}
	f, err := o.ask(cmdScan, fInt(fMsg(nil, 1, fBytes(fBytes(fInt(nil, 1, rev), 2, opt.Prefix), 3, opt.Offset)), 2, uint64(int64(limit))))
	if err != nil {
		return
	}
	fs, err := head(f.payload)
	if err != nil {
		return
	}
	for _, x := range fs {
		if x.n != 3 {
			continue
		}
		ys, e := fields(x.b)
		if e != nil {
			return nil, e
		}
		var en mondis.Entry
		for _, y := range ys {
			switch y.n {
			case 1:
				en.Key = y.b
			case 2:
				en.Value = y.b
			case 3:
				if en.Meta, err = metaResp(y.b); err != nil {
					return
				}
			}
		}
		es = append(es, en)
	}
	return
}
func (o rawOps) Scan(mondis.ProviderScanOption, func(k, v []byte, m mondis.VMetaResp) bool) error {
	panic("harness: ScanLimit only")
}

// rawSession implements session on the raw protocol.
type rawSession struct {
	p    *proxy
	mu   sync.Mutex
	rc   *rawConn
	next uint64
	nb   byte
}

func newRaw(p *proxy) *rawSession { return &rawSession{p: p, next: 1} }

func (s *rawSession) conn() (*rawConn, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.rc == nil || s.rc.isDead() {
		rc, err := dialRaw(s.p.addr)
		if err != nil {
			return nil, errGone
		}
		s.rc = rc
	}
	return s.rc, nil
}
func (s *rawSession) id() uint64 {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.next += 2
	return s.next
}

func (s *rawSession) ops() target {
	return rawOps{ask: func(cmd uint32, p []byte) (rframe, error) {
		rc, err := s.conn()
		if err != nil {
			return rframe{}, err
		}
		id := s.id()
		defer rc.done(id)
		s.nb ^= flNB // handled in turn or on its own
		return rc.ask(id, cmd, s.nb, p)
	}}
}

type rawTxn struct {
	rawOps
	s   *rawSession
	rc  *rawConn
	id  uint64
	upd bool
	end bool

	sent []string // requests on their way, in order
}

// cmdSent asks for the answer to a request that was sent before.
const cmdSent = 0xffffff

// ahead sends the requests of ops at once; they are to be executed in this order then.
func (t *rawTxn) ahead(ops []kvx.Op, commit bool) {
	if t.end {
		return
	}
	var out []byte
	add := func(cmd uint32, flags byte, p []byte) {
		t.sent = append(t.sent, fmt.Sprintf("%d %x", cmd, p))
		if t.rc == nil {
			rc, err := t.s.conn()
			if err != nil {
				trace.Fatal("pipelining: %v", err)
			}
			t.rc, t.id = rc, t.s.id()
			if t.upd {
				cmd |= 1 << 16
			}
			rc.mu.Lock()
			if !rc.dead {
				rc.wait[t.id] = make(chan rframe, 64)
			}
			rc.mu.Unlock()
		}
		out = append(out, encode(t.id, cmd, flags, p)...)
	}
	rec := rawOps{func(cmd uint32, p []byte) (rframe, error) {
		add(cmd, flStream, p)
		return rframe{}, errGone
	}, true}
	for _, o := range ops {
		kvx.Perform(rec, o)
	}
	if commit {
		add(cmdCommit, flStream|flEnd, nil)
	}
	t.rc.c.Write(out)
}

// arriving is true if the request has been sent ahead.
func (t *rawTxn) arriving(cmd uint32, p []byte) bool {
	if len(t.sent) == 0 {
		return false
	}
	if x := fmt.Sprintf("%d %x", cmd, p); x != t.sent[0] {
		trace.Fatal("pipelining: %s was sent instead of %s", t.sent[0], x)
	}
	t.sent = t.sent[1:]
	return true
}

func (s *rawSession) begin(upd bool) rtx {
	t := &rawTxn{s: s, upd: upd}
	t.rawOps = rawOps{t.request, true}
	return t
}

func (t *rawTxn) request(cmd uint32, p []byte) (rframe, error) {
	if t.end {
		return rframe{}, errGone
	}
	if t.arriving(cmd, p) {
		cmd = cmdSent
	}
	if t.rc != nil {
		f, err := t.rc.ask(t.id, cmd, flStream, p)
		t.end = t.end || f.flags&(flEnd|flRst) != 0
		return f, err
	}
	if !t.upd && (cmd == cmdSet || cmd == cmdDelete) {
		return rframe{}, errors.New("raw: would begin an update")
	}
	rc, err := t.s.conn()
	if err != nil {
		return rframe{}, err
	}
	t.rc, t.id = rc, t.s.id()
	if t.upd {
		cmd |= 1 << 16
	}
	f, err := rc.ask(t.id, cmd, flStream, p)
	t.end = t.end || f.flags&(flEnd|flRst) != 0
	return f, err
}

func (t *rawTxn) finish(cmd uint32) (rframe, error) {
	if t.end {
		return rframe{}, errGone
	}
	t.end = true
	if t.rc == nil {
		return rframe{}, nil
	}
	defer t.rc.done(t.id)
	if t.arriving(cmd, nil) {
		cmd = cmdSent
	}
	return t.rc.ask(t.id, cmd, flStream|flEnd, nil)
}

func (t *rawTxn) Commit() error {
	if !t.upd { // whatever the answer, nothing was to be committed
		t.finish(cmdCommit)
		return nil
	}
	f, err := t.finish(cmdCommit)
	if err == nil && t.rc != nil {
		_, err = head(f.payload)
	}
	return err
}
func (t *rawTxn) Discard() { t.finish(cmdDiscard) }

// ---- nonsense

var undecodable = [][]byte{
	{0x0a, 0xff, 0xff, 0xff, 0xff, 0x7f},
	{0x07},
	{0x0a, 0x05, 'a'},
	{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
	{0x0a, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x01},
	{0x0a, 0x80},
	{0x0e, 0x00},
	{0x0c},
	{0x08, 0x01}, // a number where bytes belong
}

// malformed sends nonsense (in the stream of t, or on its own) and gives the server a moment to react.
// lenient: a server could make sense of it and go on.
func (s *rawSession) malformed(t *rawTxn, kind, n int) (lenient bool) {
	rc, err := s.conn()
	if err != nil {
		return
	}
	id := s.id()
	fl := byte(flNB)
	if n%2 == 1 {
		fl = flStream
	}
	cmds := []uint32{cmdSet, cmdExists, cmdGet, cmdDelete, cmdScan}
	cmd := cmds[n%len(cmds)]
	if t != nil && t.rc != nil && !t.end {
		rc, id, fl = t.rc, t.id, flStream
	} else if fl == flStream {
		cmd |= 1 << 16
	}
	bad := undecodable[n%len(undecodable)]
	if cmd&0xff == cmdScan {
		bad = []byte{0x0a, 0x03, 0x12, 0x05, 'a'}
	}
	good := fBytes(fBytes(nil, 1, []byte("nonsense")), 2, []byte("x"))
	whole := encode(id, cmdSet, fl, good)
	inTxn := t != nil && t.rc != nil && !t.end
	var out []byte
	switch kind % 12 {
	case 0, 1, 2:
		out = encode(id, cmd, fl, bad)
	case 3:
		out = encode(id, cmdScan, fl, nil) // no options at all
		lenient = true
	case 4:
		out = encode(id, cmdScan, fl, fInt(fMsg(nil, 1, nil), 2, 1<<64-5)) // a negative limit
		lenient = true
	case 5:
		out = encode(id, 77, fl, good)
		lenient = inTxn
	case 6:
		out = []byte{0, 0, 0, 5, 0, 0, 0, 0, 0}
	case 7:
		out = []byte{0xff, 0xff, 0xff, 0xff, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0}
	case 8: // half a frame, then nothing
		out = whole[:len(whole)-1-n%(len(whole)-1)]
	case 9: // the stream is reset
		if inTxn {
			out = encode(id, 0, flRst, nil)
		} else {
			out = append(encode(id, cmdGet|1<<16, flStream, fBytes(nil, 1, []byte("k"))), encode(id, 0, flRst, nil)...)
		}
	case 10: // the stream ends with something else than a commit
		if inTxn {
			out = encode(id, cmdSet, flStream|flEnd, good)
		} else {
			out = append(encode(id, cmdSet|1<<16, flStream, good), encode(id, cmdGet, flStream|flEnd, fBytes(nil, 1, []byte("k")))...)
		}
	case 11: // an end without a beginning
		if inTxn {
			out = encode(id, cmd, fl, bad)
		} else {
			out = encode(id, []uint32{cmdCommit, cmdDiscard}[n%2], flStream|flEnd, nil)
		}
	}
	rc.mu.Lock()
	ch := rc.wait[id]
	if ch == nil && !rc.dead {
		ch = make(chan rframe, 64)
		rc.wait[id] = ch
	}
	rc.mu.Unlock()
	rc.c.Write(out)
	if kind%12 == 8 {
		if inTxn {
			t.end = true
		}
		time.Sleep(time.Duration(n%3) * 10 * time.Millisecond)
		if n%4 == 0 { // it stays like that
			return
		}
		rc.c.Close()
		return
	}
	if ch != nil {
		select {
		case f := <-ch:
			if inTxn && f.flags&(flEnd|flRst) != 0 {
				t.end = true
			}
		case <-time.After(50 * time.Millisecond):
		}
		time.Sleep(5 * time.Millisecond)
	}
	if inTxn {
		// late answers must not be taken for those of later requests
		t.drain()
		if k := kind % 12; k == 9 || k == 10 {
			t.end = true // it said so itself
		}
	}
	return
}

func (t *rawTxn) drain() {
	t.rc.mu.Lock()
	defer t.rc.mu.Unlock()
	ch := t.rc.wait[t.id]
	for ch != nil {
		select {
		case f, ok := <-ch:
			if !ok {
				return
			}
			t.end = t.end || f.flags&(flEnd|flRst) != 0
		default:
			return
		}
	}
}
