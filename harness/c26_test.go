package harness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"ustack"
)

// tok is a message that carries its own itinerary.
type tok struct {
	id   int
	at   int    // probe at which something happens to it (-1: nowhere)
	what string // consume, twice, later, turn
	mu   sync.Mutex
	path []string
}

func (t *tok) visit(s string) {
	t.mu.Lock()
	t.path = append(t.path, s)
	t.mu.Unlock()
}

func (t *tok) seen() []string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return append([]string(nil), t.path...)
}

// chainRef is a reference connection of the harness.
type chainRef struct {
	id     int
	in     chan interface{}
	closed chan struct{}
	once   sync.Once
	sent   Bag[interface{}]
}

func newChainRef(id int) *chainRef {
	return &chainRef{id: id, in: make(chan interface{}, 4096), closed: make(chan struct{})}
}

func (m *chainRef) GetName() string                 { return "ref" }
func (m *chainRef) Read(p []byte) (int, error)      { return 0, errors.New("reference") }
func (m *chainRef) Write(p []byte) (int, error)     { return 0, errors.New("reference") }
func (m *chainRef) UseReference() bool              { return true }
func (m *chainRef) Close()                          { m.once.Do(func() { close(m.closed) }) }
func (m *chainRef) GetTransport() ustack.Transport  { return nil }
func (m *chainRef) SetTransport(t ustack.Transport) {}
func (m *chainRef) SetReference(p interface{}) error {
	if m.Closed() {
		return errors.New("closed")
	}
	if t, ok := p.(*tok); ok {
		t.visit("wire")
	}
	m.sent.Add(p)
	return nil
}
func (m *chainRef) GetReference() (interface{}, error) {
	select {
	case x := <-m.in:
		return x, nil
	case <-m.closed:
		return nil, errors.New("closed")
	}
}
func (m *chainRef) Closed() bool {
	select {
	case <-m.closed:
		return true
	default:
		return false
	}
}

// chainProbe is a probe that also watches how it is set up.
type chainProbe struct {
	*Probe
	idx   int
	runs  atomic.Int32
	onRun func()
}

func (p *chainProbe) Run() ustack.DataProcessor {
	p.onRun()
	p.runs.Add(1)
	return p
}
func (p *chainProbe) SetUStack(u ustack.UStack) ustack.DataProcessor { p.US = u; return p }

type chainFeat struct {
	*Feat
	runs  atomic.Int32
	onRun func()
}

func (f *chainFeat) Run() ustack.Feature {
	f.onRun()
	f.runs.Add(1)
	return f
}

func TestC26(t *testing.T) {
	Bubble(t, "C26", func(h *H) {
		for i := 0; i < h.N(600, 8000); i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { c26(h, c) })
			if i%8 == 0 {
				h.Case(fmt.Sprintf("bytes-%d", i), func(c *C) { c26bytes(h, c) })
			}
		}
	})
}

func c26(h *H, c *C) {
	r := c.R
	us := ustack.NewUStack()
	yes := func(ustack.Context, bool) bool { return true }
	no := func(ustack.Context, bool) bool { return false }
	pass := []struct {
		n string
		f func() ustack.DataProcessor
	}{
		{"flow", ustack.NewFlowController},
		{"echo-off", func() ustack.DataProcessor { return ustack.NewEcho().SetEnable(false) }},
		{"discarder-off", func() ustack.DataProcessor { return ustack.NewDiscarder().SetEnable(false) }},
		{"filter-all", func() ustack.DataProcessor { return ustack.NewFilter(yes) }},
		{"filter-off", func() ustack.DataProcessor { return ustack.NewFilter(no).SetEnable(false) }},
		{"forwarder-none", func() ustack.DataProcessor { return ustack.NewForwarder(no) }},
		{"frame", ustack.NewFrameDecoder},
		{"stat", ustack.NewStatCounter},
		{"heartbeat", ustack.NewHeartbeat},
		{"lb-off", func() ustack.DataProcessor { return ustack.NewLoadBalancer().SetEnable(false) }},
		{"codec-off", func() ustack.DataProcessor { return ustack.NewBytesCodec().SetEnable(false) }},
	}
	var probes []*chainProbe
	var names []string
	n := r.Intn(9)
	if r.Intn(20) == 0 {
		n = 17 + r.Intn(60)
	}
	nRef := 1 + r.Intn(3)
	var refs []*chainRef
	tr := NewMemTransport("mem")
	slow := r.Intn(2) == 0
	eps := []ustack.EndPoint{ustack.NewEndPoint("a", 0), ustack.NewEndPoint("b", 5)}
	setup := func(what string, us2 ustack.UStack) {
		if us2 != us {
			c.Fail("%s is run before it was given its stack", what)
		}
		if slow {
			time.Sleep(time.Second) // what comes too early comes now
		}
	}
	for k := 0; k < n; k++ {
		if r.Intn(3) == 0 {
			p := pass[r.Intn(len(pass))]
			names = append(names, p.n)
			us.AppendDataProcessor(p.f())
			continue
		}
		p := &chainProbe{Probe: NewProbe("p"), idx: len(probes)}
		p.overhead = r.Intn(3)
		p.onRun = func() {
			setup("a processor", p.US)
			if p.Up == nil || p.Low == nil {
				c.Fail("a processor is run before it was linked")
			}
		}
		p.OnEv = func(e ustack.Event) {
			switch e.Type {
			case ustack.UStackEventNewConnection, ustack.UStackEventConnectionClosed:
				if p.runs.Load() != 1 {
					c.Fail("processor %d saw a connection event after %d runs", p.idx, p.runs.Load())
				}
			}
		}
		data := func(dir string, on func(ustack.Context)) func(ctx ustack.Context) bool {
			return func(ctx ustack.Context) bool {
				if p.runs.Load() != 1 {
					c.Fail("processor %d got data after %d runs", p.idx, p.runs.Load())
				}
				t, ok := ctx.GetMessage().(*tok)
				if !ok {
					c.Fail("processor %d got %T", p.idx, ctx.GetMessage())
				}
				// the neighbour's mark
				want := interface{}(nil)
				if dir == "down" && p.idx > 0 {
					want = fmt.Sprint("down", p.idx-1)
				}
				if dir == "up" && p.idx < len(probes)-1 {
					want = fmt.Sprint("up", p.idx+1)
				}
				if t.what == "turn" && dir == "up" && t.at == p.idx+1 {
					want = fmt.Sprint("down", t.at)
				}
				if got := ctx.GetOption("hop"); got != want {
					c.Fail("processor %d (%s) got a context marked %v, its neighbour's mark is %v", p.idx, dir, got, want)
				}
				ctx.SetOption("hop", fmt.Sprint(dir, p.idx))
				t.visit(fmt.Sprint(dir, p.idx))
				if t.at != p.idx {
					return true
				}
				switch t.what {
				case "consume":
					return false
				case "twice":
					on(ctx)
					ctx.SetOption("hop", fmt.Sprint(dir, p.idx)) // others marked the context meanwhile
					return true
				case "later":
					go func() { time.Sleep(time.Second); on(ctx) }()
					return false
				case "turn":
					if dir == "down" {
						p.Up.OnLowerData(ctx)
						return false
					}
				}
				return true
			}
		}
		p.OnUp = data("down", func(ctx ustack.Context) { p.Low.OnUpperData(ctx) })
		p.OnLow = data("up", func(ctx ustack.Context) { p.Up.OnLowerData(ctx) })
		probes = append(probes, p)
		names = append(names, fmt.Sprint("p", p.idx))
		us.AppendDataProcessor(p)
	}
	var feats []*chainFeat
	for k := r.Intn(3); k > 0; k-- {
		f := &chainFeat{Feat: NewFeat("f")}
		f.onRun = func() { setup("a feature", f.US) }
		feats = append(feats, f)
		us.AddFeature(f)
	}
	for _, ep := range eps {
		us.AddEndPoint(ep)
	}
	var idle []ustack.Transport
	if r.Intn(20) == 0 {
		for k := 1 + r.Intn(40); k > 0; k-- {
			t := NewMemTransport("idle")
			idle = append(idle, t)
			us.AddTransport(t)
		}
	}
	us.AddTransport(tr)
	var all []*tok
	up := map[*tok]bool{}
	newTok := func() *tok {
		t := &tok{id: len(all), at: -1}
		if len(probes) > 0 && r.Intn(2) == 0 {
			t.at = r.Intn(len(probes))
			t.what = []string{"consume", "twice", "later", "turn"}[r.Intn(4)]
		}
		all = append(all, t)
		return t
	}
	feed := func(cn *chainRef) {
		t := newTok()
		if t.what == "turn" {
			t.what = "consume"
		}
		up[t] = true
		cn.in <- t
	}
	// connections that are there, with data, when the stack is run
	for k := 0; k < nRef; k++ {
		cn := newChainRef(k)
		refs = append(refs, cn)
		if r.Intn(2) == 0 {
			feed(cn)
		}
		tr.Push(cn)
	}
	c.Logf("chain %v, %d features, %d connections, slow=%v", names, len(feats), nRef, slow)
	us.Run()
	Settle()
	for _, p := range probes {
		if p.runs.Load() != 1 {
			c.Fail("processor %d was run %d times", p.idx, p.runs.Load())
		}
	}
	for _, f := range feats {
		if f.runs.Load() != 1 {
			c.Fail("a feature was run %d times", f.runs.Load())
		}
	}
	overhead := 0
	for _, p := range probes {
		overhead += p.overhead
	}
	for k := 3 + r.Intn(20); k > 0; k-- {
		cn := refs[r.Intn(len(refs))]
		if r.Intn(2) == 0 {
			feed(cn)
		} else {
			ep := eps[r.Intn(2)]
			// a message that turns around goes to the sender's session
			send(ep, cn, newTok())
		}
		if r.Intn(3) == 0 {
			Settle()
		}
	}
	time.Sleep(5 * time.Second)
	Settle()
	atEp := map[*tok]int{}
	for _, ep := range eps {
		for _, d := range drain(ep) {
			t, ok := d.GetData().(*tok)
			if !ok {
				c.Fail("an endpoint got %T", d.GetData())
			}
			atEp[t]++
		}
	}
	last := len(probes) - 1
	for _, t := range all {
		var want []string
		ends := 0
		var down, rise func(k int)
		rise = func(k int) { // arrives at probe k going up
			if k < 0 {
				ends++
				return
			}
			want = append(want, fmt.Sprint("up", k))
			if k == t.at && t.what == "consume" {
				return
			}
			if k == t.at && t.what == "twice" {
				rise(k - 1)
			}
			rise(k - 1)
		}
		down = func(k int) {
			if k > last {
				want = append(want, "wire")
				return
			}
			want = append(want, fmt.Sprint("down", k))
			if k == t.at {
				switch t.what {
				case "consume":
					return
				case "twice":
					down(k + 1)
				case "turn":
					rise(k - 1)
					return
				}
			}
			down(k + 1)
		}
		if up[t] {
			rise(last)
		} else {
			down(0)
		}
		if got := t.seen(); fmt.Sprint(got) != fmt.Sprint(want) {
			c.Fail("message %d (%s at %d) went %v, expected %v", t.id, t.what, t.at, got, want)
		}
		if atEp[t] != ends {
			c.Fail("message %d (%s at %d) reached endpoints %d times, expected %d", t.id, t.what, t.at, atEp[t], ends)
		}
		h.Count("hops", int64(len(want)))
	}
	_ = overhead
	h.Count("messages", int64(len(all)))
	c.Sig(names, len(all), nRef, hash64(c.hist))
	for _, cn := range refs {
		cn.Close()
	}
	us.DeleteTransport(tr)
	for _, t := range idle {
		us.DeleteTransport(t)
	}
	for _, ep := range eps {
		us.DeleteEndPoint(ep)
	}
	Settle()
}

// c26bytes: what is read from byte-stream connections, each piece with a context of its own.
func c26bytes(h *H, c *C) {
	r := c.R
	n := 1 + r.Intn(4)
	type piece struct {
		data []byte
		cn   *MemConn
		late int // the probe that passes it on later
		path []int
	}
	var mu sync.Mutex
	var all []*piece
	var procs []ustack.DataProcessor
	for k := 0; k < n; k++ {
		p := &chainProbe{Probe: NewProbe("p"), idx: k, onRun: func() {}}
		p.OnLow = func(ctx ustack.Context) bool {
			want := interface{}(nil)
			if k < n-1 {
				want = k + 1
			}
			if got := ctx.GetOption("hop"); got != want {
				c.Fail("bytes: processor %d of %d got a context marked %v, its neighbour's mark is %v", k, n, got, want)
			}
			if ctx.GetMessage() != nil {
				c.Fail("bytes: processor %d of %d got a message %v with the bytes", k, n, ctx.GetMessage())
			}
			b := content(ctx.GetBuffer())
			if len(b) < 4 {
				c.Fail("bytes: processor %d of %d got %x", k, n, b)
			}
			mu.Lock()
			id := int(binary.BigEndian.Uint32(b))
			if id >= len(all) {
				c.Fail("bytes: processor %d of %d got %x", k, n, b)
			}
			x := all[id]
			x.path = append(x.path, k)
			late := x.late == k
			mu.Unlock()
			if !bytes.Equal(b, x.data) || ctx.GetConnection() != ustack.TransportConnection(x.cn) {
				c.Fail("bytes: processor %d of %d got another buffer or connection than its neighbour passed on", k, n)
			}
			ctx.SetOption("hop", k)
			if k == 0 {
				ctx.SetMessage(id)
			}
			if late {
				go func() { time.Sleep(time.Second); p.Up.OnLowerData(ctx) }()
				return false
			}
			return true
		}
		procs = append(procs, p)
	}
	ep := ustack.NewEndPoint("e", 0)
	N := NewNode(64, procs, ep)
	var cns []*MemConn
	for k := 1 + r.Intn(3); k > 0; k-- {
		cn := NewMemConn("c")
		cns = append(cns, cn)
		N.Tr.Push(cn)
	}
	Settle()
	for k := 3 + r.Intn(30); k > 0; k-- {
		mu.Lock()
		x := &piece{cn: cns[r.Intn(len(cns))], late: r.Intn(3*n) - n}
		x.data = append(be32(uint32(len(all))), randBytes(r, r.Intn(60))...)
		all = append(all, x)
		mu.Unlock()
		x.cn.FeedBytes(x.data)
		if r.Intn(3) == 0 {
			Settle()
		}
	}
	time.Sleep(10 * time.Second)
	Settle()
	got := map[int]int{}
	for _, d := range drain(ep) {
		id, ok := d.GetData().(int)
		if !ok {
			c.Fail("bytes: the endpoint got %T", d.GetData())
		}
		if d.GetConnection() != ustack.TransportConnection(all[id].cn) {
			c.Fail("bytes: the endpoint got a message with another connection")
		}
		got[id]++
	}
	for id, x := range all {
		if len(x.path) != n || got[id] != 1 {
			c.Fail("bytes: piece %d visited %v of %d processors and arrived %d times", id, x.path, n, got[id])
		}
	}
	h.Count("pieces", int64(len(all)))
	c.Sig("bytes", n, len(all), len(cns))
	N.Shut()
	Settle()
}
