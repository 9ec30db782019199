// Package lib: trace recording, servers, raw peers and helpers shared by the drivers.
package lib

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

type M = map[string]any

// Trace is the event log of one scenario; events are ordered by the lock.
type Trace struct {
	mu     sync.Mutex
	ID     string
	Cfg    M
	ev     []M
	closed bool
	start  time.Time
}

func NewTrace(id string, cfg M) *Trace {
	t := &Trace{ID: id, Cfg: cfg, start: time.Now()}
	out.begin(t)
	return t
}

// Log appends one event: Log("Handle", "c", 1, "k", 2)
func (t *Trace) Log(op string, kv ...any) {
	m := M{"op": op}
	for i := 0; i+1 < len(kv); i += 2 {
		m[kv[i].(string)] = kv[i+1]
	}
	t.mu.Lock()
	if !t.closed {
		t.ev = append(t.ev, m)
	}
	t.mu.Unlock()
}

func (t *Trace) Len() int {
	t.mu.Lock()
	defer t.mu.Unlock()
	return len(t.ev)
}

// Count counts events satisfying f (under the lock).
func (t *Trace) Count(f func(M) bool) int {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := 0
	for _, e := range t.ev {
		if f(e) {
			n++
		}
	}
	return n
}

// Ms is the time since the trace started in milliseconds.
func (t *Trace) Ms() int { return int(time.Since(t.start) / time.Millisecond) }

// Close ends the trace and writes it out.
func (t *Trace) Close() {
	t.mu.Lock()
	t.closed = true
	ev := t.ev
	t.mu.Unlock()
	out.end(t, ev)
}

type output struct {
	mu   sync.Mutex
	f    *os.File
	w    *bufio.Writer
	open map[string]*Trace
}

var out = &output{open: map[string]*Trace{}}

func OpenOutput(path string) {
	f, err := os.Create(path)
	if err != nil {
		panic(err)
	}
	out.f = f
	out.w = bufio.NewWriter(f)
}

func (o *output) begin(t *Trace) {
	o.mu.Lock()
	defer o.mu.Unlock()
	o.open[t.ID] = t
	b, _ := json.Marshal(M{"begin": t.ID, "cfg": t.Cfg})
	o.w.Write(append(b, '\n'))
	o.w.Flush()
}

func (o *output) end(t *Trace, ev []M) {
	o.mu.Lock()
	defer o.mu.Unlock()
	delete(o.open, t.ID)
	if ev == nil {
		ev = []M{}
	}
	b, err := json.Marshal(M{"id": t.ID, "cfg": t.Cfg, "ev": ev})
	if err != nil {
		panic(err)
	}
	o.w.Write(append(b, '\n'))
	o.w.Flush()
}

func Finish() {
	out.mu.Lock()
	out.w.Flush()
	out.f.Close()
	os.Exit(0)
}

// Hang closes every open trace with a Hang event and ends the process (normally: the traces tell).
func Hang(t *Trace, what string) {
	buf := make([]byte, 1<<20)
	n := runtime.Stack(buf, true)
	fmt.Fprintf(os.Stderr, "HANG in %s: %s\n%s\n", t.ID, what, buf[:n])
	t.Log("Hang", "what", what)
	t.Close()
	Finish()
}

// Guard runs f and reports a Hang if it takes longer than d.
func Guard(t *Trace, d time.Duration, what string, f func()) {
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
	case <-time.After(d):
		Hang(t, what)
	}
}

// WaitFor polls f until it is true or d has passed.
func WaitFor(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	step := 200 * time.Microsecond
	for {
		if f() {
			return true
		}
		if time.Now().After(end) {
			return f()
		}
		time.Sleep(step)
		if step < 5*time.Millisecond {
			step *= 2
		}
	}
}

var settleFailed int32

// Patience is how long to wait for something that must happen (a bounded stand-in for "eventually"); once something
// has failed to happen, the rest of the process waits less: the verdict is already known.
func Patience() time.Duration {
	switch n := atomic.LoadInt32(&settleFailed); {
	case n == 0:
		return 15 * time.Second
	case n < 4:
		return 3 * time.Second
	}
	return 300 * time.Millisecond
}

// Failed records that something did not happen in time.
func Failed() { atomic.AddInt32(&settleFailed, 1) }

// Settle waits for f with Patience.
func Settle(f func() bool) bool {
	ok := WaitFor(Patience(), f)
	if !ok {
		Failed()
	}
	return ok
}

// GID is the id of the calling goroutine.
func GID() int {
	var b [64]byte
	n := runtime.Stack(b[:], false)
	f := bytes.Fields(b[:n])
	id, _ := strconv.Atoi(string(f[1]))
	return id
}
