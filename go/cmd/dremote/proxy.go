package main

import (
	"encoding/binary"
	"io"
	"net"
	"sync"
	"time"

	"mondisverif/trace"
)

// proxy stands between one client and the server and can cut the connection around a chosen request.
type proxy struct {
	addr, server string
	mu           sync.Mutex
	ln           net.Listener
	pairs        map[*pair]bool
	armed        string // cut at the next request: before, mid, after (its answer), race
}

type pair struct {
	p        *proxy
	cli, srv net.Conn
	once     sync.Once
	swallow  bool // the next answer ends the connection
	mu       sync.Mutex
}

func newProxy(server string) *proxy {
	p := &proxy{server: server, pairs: map[*pair]bool{}}
	p.listen()
	return p
}

func (p *proxy) listen() {
	for i := 0; ; i++ {
		a := p.addr
		if a == "" {
			a = freeAddr()
		}
		ln, err := net.Listen("tcp", a)
		if err == nil {
			p.addr = a
			p.mu.Lock()
			p.ln = ln
			p.mu.Unlock()
			go p.serve(ln)
			return
		}
		if i > 100 {
			trace.Fatal("proxy: %v", err)
		}
		time.Sleep(20 * time.Millisecond)
	}
}

func (p *proxy) serve(ln net.Listener) {
	for {
		c, err := ln.Accept()
		if err != nil {
			return
		}
		s, err := net.Dial("tcp", p.server)
		if err != nil {
			c.Close()
			continue
		}
		x := &pair{p: p, cli: c, srv: s}
		p.mu.Lock()
		p.pairs[x] = true
		p.mu.Unlock()
		go x.up()
		go x.down()
	}
}

func (x *pair) close() {
	x.once.Do(func() {
		x.cli.Close()
		x.srv.Close()
		x.p.mu.Lock()
		delete(x.p.pairs, x)
		x.p.mu.Unlock()
	})
}

// frame reads one whole frame; garbage that does not look like one is passed on as it comes
func frame(r io.Reader) ([]byte, bool, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return nil, false, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n < 12 || n > 1<<28 {
		return h[:], false, nil
	}
	b := make([]byte, 4+n)
	copy(b, h[:])
	k, err := io.ReadFull(r, b[4:])
	if err != nil {
		return b[:4+k], false, nil
	}
	return b, true, nil
}

func (x *pair) up() {
	defer x.close()
	for {
		b, whole, err := frame(x.cli)
		if err != nil {
			return
		}
		if !whole {
			x.srv.Write(b)
			io.Copy(x.srv, x.cli)
			return
		}
		x.p.mu.Lock()
		mode := x.p.armed
		x.p.armed = ""
		x.p.mu.Unlock()
		switch mode {
		case "before":
			return
		case "mid":
			x.srv.Write(b[:len(b)/2])
			return
		case "race":
			x.srv.Write(b)
			return
		case "after":
			x.mu.Lock()
			x.swallow = true
			x.mu.Unlock()
			time.AfterFunc(5*time.Second, x.close)
		}
		if _, err = x.srv.Write(b); err != nil {
			return
		}
	}
}

func (x *pair) down() {
	defer x.close()
	for {
		b, _, err := frame(x.srv)
		if err != nil {
			return
		}
		x.mu.Lock()
		sw := x.swallow
		x.mu.Unlock()
		if sw {
			return
		}
		if _, err = x.cli.Write(b); err != nil {
			return
		}
	}
}

// cut every connection of the client
func (p *proxy) cut() {
	p.mu.Lock()
	var xs []*pair
	for x := range p.pairs {
		xs = append(xs, x)
	}
	p.mu.Unlock()
	for _, x := range xs {
		x.close()
	}
}

func (p *proxy) arm(mode string) {
	p.mu.Lock()
	p.armed = mode
	p.mu.Unlock()
}

// close the way to the server altogether
func (p *proxy) close() {
	p.mu.Lock()
	if p.ln != nil {
		p.ln.Close()
		p.ln = nil
	}
	p.mu.Unlock()
	p.cut()
}
