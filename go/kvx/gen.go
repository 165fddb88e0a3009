package kvx

import (
	"encoding/hex"
	"math/rand"
)

// Gen makes random abstract programs over a small, collision-prone key domain.
type Gen struct {
	R    *rand.Rand
	Keys [][]int
	Lvl  bool // leveldb: no meta, no reverse
	// AllowEmpty: the empty key may be used
	AllowEmpty bool
	NoTTL      bool
}

var edge = []int{0, 1, 2, 97, 254, 255}

// NewGen picks this segment's key domain.
func NewGen(r *rand.Rand, lvl bool, n int) *Gen {
	g := &Gen{R: r, Lvl: lvl}
	for len(g.Keys) < n {
		var k []int
		switch r.Intn(5) {
		case 0: // extend an existing key
			if len(g.Keys) > 0 {
				k = append(append([]int{}, g.Keys[r.Intn(len(g.Keys))]...), edge[r.Intn(len(edge))])
			}
		case 1: // all 0xff
			for i := r.Intn(3) + 1; i > 0; i-- {
				k = append(k, 255)
			}
		}
		if k == nil {
			for i := r.Intn(3) + 1; i > 0; i-- {
				k = append(k, edge[r.Intn(len(edge))])
			}
		}
		g.Keys = append(g.Keys, k)
	}
	return g
}

// Key picks a key.
func (g *Gen) Key() []int {
	x := g.R.Intn(40)
	if x == 0 && g.AllowEmpty {
		return []int{}
	}
	if x == 1 {
		k := []int{}
		for i := 200 + g.R.Intn(300); i > 0; i-- {
			k = append(k, edge[i%len(edge)])
		}
		return k
	}
	return g.Keys[g.R.Intn(len(g.Keys))]
}

// Val fills in a value.
func (g *Gen) Val(o *Op) {
	switch g.R.Intn(12) {
	case 0:
		o.VNil = true
	case 1:
		o.V = ""
	case 2:
		o.VN = 32 + g.R.Intn(3)
		o.V = string(rune('a' + g.R.Intn(26)))
	case 3:
		o.VN = 1000 + g.R.Intn(9000)
		o.V = string(rune('a' + g.R.Intn(26)))
	default:
		b := make([]byte, 1+g.R.Intn(4))
		g.R.Read(b)
		o.V = hex.EncodeToString(b)
	}
	if o.VN > 0 {
		o.V = o.V + string(rune('a'+g.R.Intn(26)))
	}
}

// Set makes a set in transaction t.
func (g *Gen) Set(t int) Op {
	o := Op{E: "set", T: t, K: g.Key()}
	g.Val(&o)
	o.TTL = "none"
	if !g.Lvl && g.R.Intn(3) == 0 || g.Lvl && g.R.Intn(25) == 0 {
		o.Meta = true
		o.Tag = []int{0, 1, 7, 128, 255}[g.R.Intn(5)]
		if !g.NoTTL && g.R.Intn(3) == 0 {
			o.TTL = "long"
		}
	}
	return o
}

// Scan makes a scan in transaction t.
func (g *Gen) Scan(t int) Op {
	o := Op{E: "scan", T: t}
	if g.R.Intn(2) == 0 && (!g.Lvl || g.R.Intn(12) == 0) {
		o.Rev = true
	}
	switch g.R.Intn(4) {
	case 0:
		o.PfxNil = true
	case 1:
		o.Prefix = []int{}
	default:
		k := g.Keys[g.R.Intn(len(g.Keys))]
		o.Prefix = k[:g.R.Intn(len(k)+1)]
		if g.R.Intn(4) == 0 {
			o.Prefix = append(append([]int{}, o.Prefix...), edge[g.R.Intn(len(edge))])
		}
	}
	if g.R.Intn(5) < 3 {
		o.HasOff = true
		k := append([]int{}, g.Keys[g.R.Intn(len(g.Keys))]...)
		switch g.R.Intn(5) {
		case 0:
			k = append(k, edge[g.R.Intn(len(edge))])
		case 1:
			k = k[:len(k)-1]
		case 2:
			k[len(k)-1] = edge[g.R.Intn(len(edge))]
		}
		o.Off = k
		if len(k) == 0 { // an empty offset is only meaningful as "from the start"
			o.HasOff = false
			o.Off = []int{}
		}
	}
	if g.R.Intn(3) == 0 {
		o.Stop = 1 + g.R.Intn(4)
	}
	return o
}

// Point makes a random non-transactional operation.
func (g *Gen) Point(t int) Op {
	switch g.R.Intn(8) {
	case 0, 1, 2:
		return g.Set(t)
	case 3, 4:
		return Op{E: "get", T: t, K: g.Key()}
	case 5:
		return Op{E: "exists", T: t, K: g.Key()}
	default:
		return Op{E: "delete", T: t, K: g.Key()}
	}
}
