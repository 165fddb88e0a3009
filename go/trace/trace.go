// Package trace writes the ndjson traces that the TLA+ trace specifications validate.
package trace

import (
	"bufio"
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sync"
	"sync/atomic"
	"time"
)

// Ev is one event (one line).
type Ev map[string]interface{}

// W is a trace writer, safe for concurrent use (lines are ordered by Emit calls).
type W struct {
	mu  sync.Mutex
	f   *os.File
	b   *bufio.Writer
	N   int
	Seg int

	hung int
}

// Open creates the trace file.
func Open(path string) *W {
	f, err := os.Create(path)
	if err != nil {
		Fatal("create trace: %v", err)
	}
	return &W{f: f, b: bufio.NewWriterSize(f, 1<<20)}
}

// Enough, if set, collects what has been recorded before the driver ends early.
var Enough func()

var ending int32

// Emit appends one event.
func (w *W) Emit(e Ev) {
	j, err := json.Marshal(e)
	if err != nil {
		Fatal("marshal event: %v", err)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.b.Write(j)
	w.b.WriteByte('\n')
	w.N++
	if e["r"] == "hang" || e["e"] == "hung" {
		w.hung++
		if w.hung == 3 { // enough: every further one would cost OpTimeout
			w.b.Flush()
			if !atomic.CompareAndSwapInt32(&ending, 0, 1) {
				select {} // another writer is about to end the process
			}
			if Enough != nil {
				Enough()
			}
			os.Exit(0)
		}
	}
}

// Reset starts a new segment (the spec goes back to its initial state).
func (w *W) Reset(extra Ev) {
	e := Ev{"e": "reset", "seg": w.Seg}
	for k, v := range extra {
		e[k] = v
	}
	w.Seg++
	w.Emit(e)
}

// Flush makes everything emitted durable for the reader (used before risky steps).
func (w *W) Flush() {
	w.mu.Lock()
	defer w.mu.Unlock()
	w.b.Flush()
}

// Close flushes and closes.
func (w *W) Close() {
	w.Flush()
	w.f.Close()
}

// Fatal ends the driver with a tool error (never a verdict).
func Fatal(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "DRIVER-ERROR: "+format+"\n", a...)
	debug.PrintStack()
	os.Exit(3)
}

// Must is for harness-side errors that say nothing about the code under test.
func Must(err error, what string) {
	if err != nil {
		Fatal("%s: %v", what, err)
	}
}

// K is the trace form of a key: its bytes as a sequence of numbers.
func K(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// UnK is the inverse of K.
func UnK(s []int) []byte {
	r := make([]byte, len(s))
	for i, x := range s {
		r[i] = byte(x)
	}
	return r
}

// V is the trace form of a value: hex, or length and digest when long.
func V(b []byte) string {
	if len(b) <= 24 {
		return hex.EncodeToString(b)
	}
	h := sha256.Sum256(b)
	return fmt.Sprintf("L%d:%s", len(b), hex.EncodeToString(h[:8]))
}

// OpTimeout is the generous bound after which a call into the code under test counts as hung.
var OpTimeout = 20 * time.Second

// Guard runs f; it reports a panic as "panic" and a call that does not return as "hang".
func Guard(f func() string) (r string, detail string) {
	type res struct{ r, d string }
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if p := recover(); p != nil {
				ch <- res{"panic", fmt.Sprint(p)}
			}
		}()
		ch <- res{f(), ""}
	}()
	t := time.NewTimer(OpTimeout)
	defer t.Stop()
	select {
	case x := <-ch:
		return x.r, x.d
	case <-t.C:
		if os.Getenv("VERIF_DUMP") != "" { // debugging
			pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
		}
		return "hang", ""
	}
}

var scratchRoot string

// Scratch is a fresh scratch directory below the run's scratch root.
func Scratch(name string) string {
	if scratchRoot == "" {
		scratchRoot = os.Getenv("VERIF_SCRATCH")
		if scratchRoot == "" {
			Fatal("VERIF_SCRATCH not set")
		}
	}
	d, err := os.MkdirTemp(scratchRoot, name)
	Must(err, "scratch dir")
	return d
}

// Append copies a finished trace file (renumbering its segments) into this one.
func (w *W) Append(path string) {
	b, err := os.ReadFile(path)
	Must(err, "append trace")
	w.mu.Lock()
	w.hung = -1 << 30 // the writer of that file has counted them
	w.mu.Unlock()
	b = b[:bytes.LastIndexByte(b, '\n')+1] // its writer may be in the middle of a line
	for _, line := range bytes.Split(b, []byte("\n")) {
		if len(line) == 0 {
			continue
		}
		var e Ev
		Must(json.Unmarshal(line, &e), "append trace")
		if e["e"] == "reset" {
			w.mu.Lock()
			e["seg"] = w.Seg
			w.Seg++
			w.mu.Unlock()
		}
		w.Emit(e)
	}
}
