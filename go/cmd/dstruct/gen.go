package main

import (
	"encoding/hex"
	"math"
	"math/rand"
	"strconv"

	"mondisverif/trace"
)

// values that are easily taken for one another
var near = []string{"a", "A", "b", "B", "aa", "aA", "a ", "a\x00", "\x00", "\x00\x00", "k", "\xe2\x84\xaa", "\xc3\xa9", "e\xcc\x81"}

// random makes a program for one of the properties: S01 mostly hashes, S02 mostly lists, S03 everything.
func random(r *rand.Rand, prop string) (ops []op) {
	prefixes := [][]int{{}, {1}, {109}}
	names := [][]int{{}, {97}, {97, 0}, {97, 97, 97, 97, 97, 97, 97, 97}, {97, 97, 97, 97, 97, 97, 97, 97, 97}, {0}, {255}, {255, 255}, {104}, {97, 104}}
	fields := [][]int{{}, {0}, {0, 0}, {1}, {97}, {97, 97, 97, 97, 97, 97, 97, 97}, {97, 97, 97, 97, 97, 97, 97, 97, 0}, {255}, {255, 255, 255, 255, 255, 255, 255, 255, 255}, {254, 255}}
	r.Shuffle(len(names), func(i, j int) { names[i], names[j] = names[j], names[i] })
	r.Shuffle(len(fields), func(i, j int) { fields[i], fields[j] = fields[j], fields[i] })
	nn, np := 1+r.Intn(2), 1
	nf := 2 + r.Intn(6)
	if prop == "S03" {
		nn, np, nf = 3+r.Intn(4), 1+r.Intn(3), 2
	}
	kinds := map[string]string{"S01": "hhhhhhhhhl", "S02": "lllllllllh", "S03": "hlssss"}[prop]
	far := []int64{1 << 30, -1 << 30, 1<<30 + 1, 1 << 16, -1 << 16, 256, -256}
	place := func() int64 {
		if r.Intn(12) == 0 {
			return far[r.Intn(len(far))]
		}
		return int64(r.Intn(9) - 4)
	}
	ints := []int64{0, 1, -1, 9, 10, 99, 100, 12345, -12345, math.MaxInt32, math.MinInt32, math.MaxInt64, math.MinInt64, math.MaxInt64 - 1, 1 << 48, -1 << 48, 1<<48 - 1, 1 << 24, -(1 << 24)}
	num := func() int64 {
		switch r.Intn(4) {
		case 0:
			return r.Int63() - r.Int63()
		case 1:
			return int64(r.Intn(100))
		}
		return ints[r.Intn(len(ints))]
	}
	value := func() val {
		var b []byte
		switch r.Intn(10) {
		case 8, 9: // values that are easily taken for one another
			b = []byte(near[r.Intn(len(near))])
		case 0:
		case 1:
			b = []byte(strconv.FormatInt(num(), 10))
		case 2:
			b = make([]byte, 30+r.Intn(100))
			r.Read(b)
			b[0] = 255
		case 3: // not a number although it begins like one
			b = []byte([]string{"12a", "-", "9223372036854775808", "-9223372036854775809", " 1", "1.5"}[r.Intn(6)])
		default:
			b = []byte{200, byte(r.Intn(4)), byte(r.Intn(256))}[:1+r.Intn(3)]
		}
		return val{B: hex.EncodeToString(b)}
	}
	field := func() []int { return fields[r.Intn(nf)] }
	next := 1
	var open []int
	for len(ops) < 70 {
		if len(open) == 0 || (len(open) < 3 && r.Intn(10) == 0) {
			ops = append(ops, op{E: "begin", T: next})
			open = append(open, next)
			next++
			continue
		}
		j := r.Intn(len(open))
		o := op{T: open[j], P: prefixes[r.Intn(np)], N: names[r.Intn(nn)]}
		if r.Intn(9) == 0 {
			o.E = "commit"
			if r.Intn(4) == 0 {
				o.E = "discard"
			}
			open = append(open[:j], open[j+1:]...)
			ops = append(ops, o)
			continue
		}
		if r.Intn(40) == 0 {
			o.E = "raw"
			ops = append(ops, o)
			continue
		}
		switch kinds[r.Intn(len(kinds))] {
		case 'h':
			o.F = field()
			switch r.Intn(18) {
			case 0, 1, 2, 3, 4:
				o.E, o.Val = "hset", value()
			case 5:
				o.E, o.I = "hsetint", num()
			case 6, 7:
				o.E, o.Step = "hinc", trace.I64(num())
			case 8, 9:
				o.E = "hget"
			case 10:
				o.E = "hgetint"
			case 11:
				o.E = "hlen"
			case 12, 13:
				o.E = "hdel"
				for k := r.Intn(4); k >= 0; k-- {
					o.Fs = append(o.Fs, field())
				}
				if r.Intn(10) == 0 {
					o.Fs = nil
				}
			case 14:
				o.E = "hkeys"
			case 15:
				o.E, o.C = []string{"hgetn", "hgetndesc"}[r.Intn(2)], int64(r.Intn(6)-1)
			case 16:
				o.E = "hgetall"
			case 17:
				o.E = "hclear"
				if r.Intn(3) > 0 {
					o.E, o.C = "hgetndesc", int64(r.Intn(8))
				}
			}
		case 'l':
			switch r.Intn(14) {
			case 0, 1, 2, 3:
				o.E = []string{"lpush", "rpush"}[r.Intn(2)]
				for k := r.Intn(3); k >= 0; k-- {
					o.Vals = append(o.Vals, value())
				}
				if r.Intn(8) == 0 {
					o.Vals = nil
				}
			case 4, 5:
				o.E = "lpop"
			case 6, 7:
				o.E = "rpop"
			case 8:
				o.E = "llen"
			case 9:
				o.E = "lgetall"
			case 10, 11:
				o.E, o.C = "lindex", place()
			case 12:
				o.E, o.C, o.Val = "lset", place(), value()
			case 13:
				o.E = "lclear"
				if r.Intn(3) > 0 {
					o.E = "lgetall"
				}
			}
		case 's':
			switch r.Intn(10) {
			case 0, 1:
				o.E, o.Val = "sset", value()
			case 2:
				o.E, o.I = "ssetint", num()
			case 3, 4:
				o.E = "sget"
			case 5, 6:
				o.E = "sgetint"
			case 7, 8:
				o.E, o.Step = "sinc", trace.I64(num())
			case 9:
				o.E = "sclear"
			}
		}
		if r.Intn(20) == 0 {
			o.Fault, o.After = 1+r.Intn(4), r.Intn(3) == 0
		}
		ops = append(ops, o)
	}
	return
}

// populated makes structures of more entries than a store reads ahead, and reads and removes them as a whole.
func populated(r *rand.Rand, prop string) (ops []op) {
	p, n := [][]int{{}, {1}}[r.Intn(2)], [][]int{{97}, {97, 97, 97, 97, 97, 97, 97, 97}, {255, 255}}[r.Intn(3)]
	other := []int{97, 0}
	value := func() val {
		b := make([]byte, 3+r.Intn(60))
		r.Read(b)
		b[0] = 200
		return val{B: hex.EncodeToString(b)}
	}
	cnt := 105 + r.Intn(120)
	if prop == "S02" {
		cnt += 80 // beyond what a byte counts
	}
	t := 1
	do := func(e string, o op) {
		o.E, o.T, o.P = e, t, p
		if o.N == nil {
			o.N = n
		}
		ops = append(ops, o)
	}
	turn := func() {
		do("commit", op{})
		t++
		do("begin", op{})
	}
	do("begin", op{})
	if prop == "S02" {
		look := func() {
			do("llen", op{})
			do("lgetall", op{})
			do("lindex", op{C: int64(r.Intn(2*cnt) - cnt)})
		}
		do("rpush", op{N: other, Vals: []val{value()}})
		push := [][]string{{"lpush"}, {"rpush"}, {"lpush", "rpush"}}[r.Intn(3)]
		for k := 0; k < cnt; {
			var vs []val
			for x := r.Intn(40); x >= 0; x-- {
				vs = append(vs, value())
				k++
			}
			do(push[r.Intn(len(push))], op{Vals: vs})
		}
		turn()
		look()
		for k := 0; k < 20; k++ {
			switch r.Intn(4) {
			case 0:
				do("lset", op{C: int64(r.Intn(2*cnt) - cnt), Val: value()})
			case 1:
				do("lpop", op{})
			case 2:
				do("rpop", op{})
			default:
				do("lindex", op{C: int64(r.Intn(2*cnt) - cnt)})
			}
		}
		turn()
		do([]string{"lclear", "lgetall"}[r.Intn(2)], op{Fault: 50 + r.Intn(cnt), After: r.Intn(2) == 0})
		turn()
		look()
		do("lclear", op{})
		look()
		turn()
		look()
		do("lgetall", op{N: other})
		do("commit", op{})
		return
	}
	fields := [][]int{}
	for k := 0; k < cnt; k++ {
		f := []int{r.Intn(256), k}
		for x := r.Intn(10); x > 0; x-- {
			f = append(f, r.Intn(256))
		}
		fields = append(fields, f)
	}
	look := func() {
		do("hlen", op{})
		do("hgetall", op{})
		do("hkeys", op{})
		do([]string{"hgetn", "hgetndesc"}[r.Intn(2)], op{C: int64(90 + r.Intn(cnt))})
	}
	do("hset", op{N: other, F: []int{1}, Val: value()})
	for _, f := range fields {
		do("hset", op{F: f, Val: value()})
	}
	turn()
	look()
	for k := 0; k < 10; k++ {
		switch f := fields[r.Intn(cnt)]; r.Intn(3) {
		case 0:
			do("hset", op{F: f, Val: value()})
		case 1:
			do("hdel", op{Fs: [][]int{f, fields[r.Intn(cnt)]}})
		default:
			do("hget", op{F: f})
		}
	}
	look()
	turn()
	do([]string{"hclear", "hgetall", "hkeys", "hgetn", "hgetndesc"}[r.Intn(5)], op{Fault: 1 + r.Intn(2), After: r.Intn(2) == 0, C: int64(cnt)})
	turn()
	look()
	do("hclear", op{})
	look()
	turn()
	look()
	do("hgetall", op{N: other})
	do("commit", op{})
	return
}

// bare looks at the raw store after operations that touch a structure that is not there.
func bare(r *rand.Rand, prop string) (ops []op) {
	n := [][]int{{}, {97}, {97, 97, 97, 97, 97, 97, 97, 97}}[r.Intn(3)]
	kinds := map[string][]op{
		"S01": {{E: "hdel"}, {E: "hdel", Fs: [][]int{{1}, {1}}}, {E: "hclear"}, {E: "hget", F: []int{1}}, {E: "hlen"}, {E: "hgetall"}, {E: "hkeys"}, {E: "hgetn", C: 3}, {E: "hgetndesc", C: 3}, {E: "hgetint"}},
		"S02": {{E: "lpush"}, {E: "rpush"}, {E: "lpop"}, {E: "rpop"}, {E: "lset", Val: val{B: "61"}}, {E: "lindex"}, {E: "lclear"}, {E: "lgetall"}, {E: "llen"}},
		"S03": {{E: "sclear"}, {E: "sget"}, {E: "sgetint"}, {E: "lpush"}, {E: "hdel"}, {E: "hclear"}, {E: "lclear"}},
	}[prop]
	r.Shuffle(len(kinds), func(i, j int) { kinds[i], kinds[j] = kinds[j], kinds[i] })
	t := 1
	ops = append(ops, op{E: "begin", T: t})
	for _, o := range kinds {
		o.T, o.N = t, n
		ops = append(ops, o, op{E: "raw", T: t})
		if r.Intn(3) == 0 {
			ops = append(ops, op{E: "commit", T: t}, op{E: "begin", T: t + 1})
			t++
		}
	}
	return append(ops, op{E: "commit", T: t})
}

// similar overwrites values by ones that are easily taken for them.
func similar(r *rand.Rand, prop string) (ops []op) {
	e := map[string][]op{
		"S01": {{E: "hset"}, {E: "hget"}},
		"S02": {{E: "lset"}, {E: "lindex"}},
		"S03": {{E: "sset"}, {E: "sget"}},
	}[prop]
	ops = append(ops, op{E: "begin", T: 1})
	if prop == "S02" {
		ops = append(ops, op{E: "rpush", T: 1, Vals: []val{{B: ""}}})
	}
	for _, v := range append(append([]string{}, near...), near[r.Intn(len(near))], "x", "X", "X ", "", "x") {
		o := e[0]
		o.T, o.Val = 1, val{B: hex.EncodeToString([]byte(v))}
		g := e[1]
		g.T = 1
		ops = append(ops, o, g)
	}
	return append(ops, op{E: "commit", T: 1})
}
