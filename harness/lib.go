// Package harness runs the real ustack code (linked from /repo through a replace
// directive) under generated workloads and judges what it observes.
package harness

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"
)

// exit codes understood by tools/check.py
const (
	exitOK        = 0
	exitViolation = 10
	exitStall     = 11
	exitAbort     = 12
)

// Result is written to $VERIF_OUT by each phase.
type Result struct {
	Phase       string           `json:"phase"`
	Seed        int64            `json:"seed"`
	Tier        string           `json:"tier"`
	Evaluations int64            `json:"evaluations"`
	Distinct    int              `json:"distinct"`
	Samples     []string         `json:"samples"`
	Metrics     map[string]int64 `json:"metrics"`
	Violation   string           `json:"violation,omitempty"`
	Case        string           `json:"case,omitempty"`
	History     []string         `json:"history,omitempty"`
}

// H is one phase of one property's check.
type H struct {
	Phase string
	Tier  string
	Seed  int64
	only  string

	mu       sync.Mutex
	res      Result
	distinct map[uint64]struct{}
	progress int64
	caseName atomic.Value
	done     bool
}

var stderrReal = os.Stderr

// Start begins a phase. The caller must end with h.Finish().
func Start(phase string) *H {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier == "" {
		tier = "quick"
	}
	h := &H{Phase: phase, Tier: tier, Seed: seed, only: os.Getenv("VERIF_CASE"),
		distinct: map[uint64]struct{}{}}
	h.res = Result{Phase: phase, Seed: seed, Tier: tier, Metrics: map[string]int64{}}
	h.caseName.Store("")
	// the library talks on stdout; nobody listens
	if os.Getenv("VERIF_NOISE") == "" {
		// a nil file refuses writes without a system call, which would
		// order goroutines for the race detector
		os.Stdout = nil
	}
	return h
}

// N picks a count by tier.
func (h *H) N(quick, thorough int) int {
	if h.Tier == "thorough" {
		return thorough
	}
	return quick
}

// Count adds to a metric that ends up in the evidence.
func (h *H) Count(name string, n int64) {
	h.mu.Lock()
	h.res.Metrics[name] += n
	h.mu.Unlock()
}

// Max keeps the maximum of a metric.
func (h *H) Max(name string, n int64) {
	h.mu.Lock()
	if h.res.Metrics[name] < n {
		h.res.Metrics[name] = n
	}
	h.mu.Unlock()
}

func (h *H) write() {
	out := os.Getenv("VERIF_OUT")
	h.res.Distinct = len(h.distinct)
	b, _ := json.MarshalIndent(&h.res, "", " ")
	if out == "" {
		fmt.Fprintln(stderrReal, string(b))
		return
	}
	os.WriteFile(out, b, 0o644)
}

// Finish ends the phase and the process.
func (h *H) Finish() {
	h.mu.Lock()
	h.done = true
	h.write()
	h.mu.Unlock()
	os.Exit(exitOK)
}

// C is one case (one generated execution).
type C struct {
	H    *H
	Name string
	R    *rand.Rand

	mu   sync.Mutex
	hist []string
	sig  uint64
	sigN int
}

func hash64(parts ...interface{}) uint64 {
	f := fnv.New64a()
	fmt.Fprint(f, parts...)
	return f.Sum64()
}

// Case runs one case. Its random source depends only on seed, phase and name.
func (h *H) Case(name string, fn func(c *C)) {
	if h.only != "" && h.only != name {
		return
	}
	c := &C{H: h, Name: name}
	c.R = rand.New(rand.NewSource(int64(hash64(h.Seed, "/", h.Phase, "/", name))))
	h.caseName.Store(name)
	atomic.AddInt64(&h.progress, 1)
	fn(c)
	h.mu.Lock()
	h.res.Evaluations++
	if c.sigN > 0 {
		if _, ok := h.distinct[c.sig]; !ok {
			h.distinct[c.sig] = struct{}{}
			if len(h.res.Samples) < 3 || (len(h.res.Samples) < 6 && h.res.Evaluations%97 == 0) {
				h.res.Samples = append(h.res.Samples, c.sample())
			}
		}
	}
	h.mu.Unlock()
	atomic.AddInt64(&h.progress, 1)
}

func (c *C) sample() string {
	c.mu.Lock()
	defer c.mu.Unlock()
	s := c.Name + ": " + strings.Join(c.hist, "; ")
	if len(s) > 600 {
		s = s[:600] + " ..."
	}
	return s
}

// Logf appends to the case's history (kept for the replay file).
func (c *C) Logf(format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.hist) < 4000 {
		c.hist = append(c.hist, fmt.Sprintf(format, a...))
	}
	c.mu.Unlock()
}

// Sig adds to the signature that makes a case distinct and non-trivial.
func (c *C) Sig(parts ...interface{}) {
	c.mu.Lock()
	c.sig = hash64(c.sig, "|", fmt.Sprint(parts...))
	c.sigN++
	c.mu.Unlock()
}

// Sub is a logger of its own for one goroutine: sharing the case's lock would
// order the goroutines and hide races. Its history is reported on failure.
func (c *C) Sub() *C {
	return &C{H: c.H, Name: c.Name}
}

// Tick tells the watchdog that the case makes progress.
func (c *C) Tick() { atomic.AddInt64(&c.H.progress, 1) }

// Fail reports a violation and ends the process.
func (c *C) Fail(format string, a ...interface{}) {
	c.mu.Lock()
	hist := append([]string(nil), c.hist...)
	c.mu.Unlock()
	h := c.H
	h.mu.Lock()
	if h.done {
		select {}
	}
	h.done = true
	h.res.Violation = fmt.Sprintf(format, a...)
	h.res.Case = c.Name
	if len(hist) > 400 {
		hist = append([]string{fmt.Sprintf("... %d earlier lines", len(hist)-400)}, hist[len(hist)-400:]...)
	}
	h.res.History = hist
	h.write()
	fmt.Fprintf(stderrReal, "VERIF-FAIL phase=%s case=%s: %s\n", h.Phase, c.Name, h.res.Violation)
	os.Exit(exitViolation)
}

// Abort ends the process without a verdict: the harness cannot do its part.
func (c *C) Abort(format string, a ...interface{}) {
	fmt.Fprintf(stderrReal, "VERIF-ABORT phase=%s case=%s: %s\n", c.H.Phase, c.Name, fmt.Sprintf(format, a...))
	os.Exit(exitAbort)
}

// Guard runs fn and turns a panic into a violation.
func (c *C) Guard(what string, fn func()) {
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 8192)
			buf = buf[:runtime.Stack(buf, false)]
			c.Logf("%s", buf)
			c.Fail("%s panicked: %v", what, e)
		}
	}()
	fn()
}

// watchdog looks at real time; it must be started outside of a bubble.
func (h *H) watchdog(limit time.Duration) {
	last := int64(-1)
	still := time.Duration(0)
	const step = time.Second
	for {
		time.Sleep(step)
		p := atomic.LoadInt64(&h.progress)
		if p != last {
			last, still = p, 0
			continue
		}
		still += step
		if still < limit {
			continue
		}
		dump := func() string {
			buf := make([]byte, 4<<20)
			return string(buf[:runtime.Stack(buf, true)])
		}
		d1 := dump()
		time.Sleep(5 * time.Second)
		d2 := dump()
		if atomic.LoadInt64(&h.progress) != last {
			still = 0
			continue
		}
		h.mu.Lock()
		if h.done {
			h.mu.Unlock()
			select {}
		}
		h.done = true
		h.res.Case, _ = h.caseName.Load().(string)
		h.res.Violation = "no progress for " + limit.String() + " in case " + h.res.Case
		h.write()
		fmt.Fprintf(stderrReal, "VERIF-STALL phase=%s case=%s\n=== dump 1\n%s\n=== dump 2\n%s\n",
			h.Phase, h.res.Case, d1, d2)
		os.Exit(exitStall)
	}
}

// Plain runs a phase without a bubble.
func Plain(t *testing.T, phase string, fn func(h *H)) {
	h := Start(phase)
	go h.watchdog(60 * time.Second)
	fn(h)
	h.Finish()
}

// Bubble runs a phase inside a synctest bubble: virtual time, exact quiescence.
func Bubble(t *testing.T, phase string, fn func(h *H)) {
	h := Start(phase)
	go h.watchdog(60 * time.Second)
	synctest.Test(t, func(t *testing.T) {
		begin := time.Now()
		fn(h)
		h.Max("virtual_days", int64(time.Since(begin)/(24*time.Hour)))
		h.Finish()
	})
}

// Settle waits until every other goroutine of the bubble is durably blocked.
func Settle() { synctest.Wait() }

// randBytes makes n bytes.
func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(r.Intn(256))
	}
	return b
}

// short prints bytes.
func short(b []byte) string {
	if len(b) > 24 {
		return fmt.Sprintf("%x..(%d)", b[:24], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// Bag is a thread-safe list of observations.
type Bag[T any] struct {
	mu sync.Mutex
	l  []T
}

// Add appends one.
func (b *Bag[T]) Add(x T) {
	b.mu.Lock()
	b.l = append(b.l, x)
	b.mu.Unlock()
}

// All returns a copy.
func (b *Bag[T]) All() []T {
	b.mu.Lock()
	defer b.mu.Unlock()
	return append([]T(nil), b.l...)
}

// Len returns the count.
func (b *Bag[T]) Len() int {
	b.mu.Lock()
	defer b.mu.Unlock()
	return len(b.l)
}

// Take returns all and empties the bag.
func (b *Bag[T]) Take() []T {
	b.mu.Lock()
	defer b.mu.Unlock()
	l := b.l
	b.l = nil
	return l
}

var _ io.Reader = (*MemConn)(nil)
