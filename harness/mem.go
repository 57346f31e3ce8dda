package harness

import (
	"errors"
	"fmt"
	"io"
	"sync"
	"sync/atomic"
	"time"

	"ustack"
)

// Seg is what one Read of a MemConn yields: data, an error, or both.
type Seg struct {
	Data []byte
	Err  error
}

// MemConn is an in-memory byte-stream connection controlled by the harness.
type MemConn struct {
	ID   int
	name string

	mu     sync.Mutex
	queue  []Seg
	limit  int // max queued bytes before a peer's Write blocks (0: none)
	queued int
	notify chan struct{}
	room   chan struct{}
	closed chan struct{}
	once   sync.Once

	closeCalls int64
	reads      int64

	// OnWrite sees every Write of the library; default: record only.
	OnWrite func(p []byte) (int, error)
	// BeforeRead runs at the start of each Read.
	BeforeRead func()
	// OnClose runs on the first Close.
	OnClose func()
	Writes  Bag[[]byte]
	Peer    *MemConn
}

var connIDs int64

// NewMemConn makes a connection. Names need not be unique.
func NewMemConn(name string) *MemConn {
	return &MemConn{ID: int(atomic.AddInt64(&connIDs, 1)), name: name,
		notify: make(chan struct{}, 1), room: make(chan struct{}, 1), closed: make(chan struct{})}
}

// Feed queues segments to be read.
func (m *MemConn) Feed(segs ...Seg) {
	m.mu.Lock()
	for _, s := range segs {
		m.queue = append(m.queue, s)
		m.queued += len(s.Data)
	}
	m.mu.Unlock()
	select {
	case m.notify <- struct{}{}:
	default:
	}
}

// FeedBytes queues byte segments.
func (m *MemConn) FeedBytes(bs ...[]byte) {
	for _, b := range bs {
		m.Feed(Seg{Data: append([]byte(nil), b...)})
	}
}

// Pending tells how many segments were not read yet.
func (m *MemConn) Pending() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return len(m.queue)
}

func (m *MemConn) GetName() string { return m.name }

var errMemClosed = errors.New("memconn: closed")

func (m *MemConn) Read(p []byte) (int, error) {
	atomic.AddInt64(&m.reads, 1)
	if m.BeforeRead != nil {
		m.BeforeRead()
	}
	for {
		if m.Closed() {
			return 0, errMemClosed
		}
		m.mu.Lock()
		if len(m.queue) > 0 {
			s := &m.queue[0]
			n := copy(p, s.Data)
			m.queued -= n
			s.Data = s.Data[n:]
			var err error
			if len(s.Data) == 0 {
				err = s.Err
				m.queue = m.queue[1:]
			}
			m.mu.Unlock()
			select {
			case m.room <- struct{}{}:
			default:
			}
			if n == 0 && err == nil {
				continue
			}
			return n, err
		}
		m.mu.Unlock()
		select {
		case <-m.notify:
		case <-m.closed:
		}
	}
}

func (m *MemConn) Write(p []byte) (int, error) {
	if m.Closed() {
		return 0, errMemClosed
	}
	cp := append([]byte(nil), p...)
	if m.OnWrite != nil {
		return m.OnWrite(cp)
	}
	m.Writes.Add(cp)
	return len(p), nil
}

func (m *MemConn) UseReference() bool { return false }
func (m *MemConn) GetReference() (interface{}, error) {
	return nil, errors.New("memconn: no reference")
}
func (m *MemConn) SetReference(p interface{}) error { return errors.New("memconn: no reference") }

// Close is idempotent.
func (m *MemConn) Close() {
	atomic.AddInt64(&m.closeCalls, 1)
	m.once.Do(func() {
		close(m.closed)
		if m.OnClose != nil {
			m.OnClose()
		}
	})
}

// Closed ...
func (m *MemConn) Closed() bool {
	select {
	case <-m.closed:
		return true
	default:
		return false
	}
}

// Cutter splits one write into segments.
type Cutter func(p []byte) [][]byte

// Pair joins two connections: what is written on one is read on the other.
// Closing one lets the other read EOF after the data already queued.
func Pair(nameA, nameB string, cutAB, cutBA Cutter) (*MemConn, *MemConn) {
	a, b := NewMemConn(nameA), NewMemConn(nameB)
	join := func(from, to *MemConn, cut Cutter) {
		from.Peer = to
		from.OnWrite = func(p []byte) (int, error) {
			from.Writes.Add(p)
			if cut == nil {
				to.Feed(Seg{Data: p})
			} else {
				// one Feed: concurrent writes never mix, as on a socket
				var segs []Seg
				for _, s := range cut(p) {
					segs = append(segs, Seg{Data: append([]byte(nil), s...)})
				}
				to.Feed(segs...)
			}
			return len(p), nil
		}
		from.OnClose = func() { to.Feed(Seg{Err: io.EOF}) }
	}
	join(a, b, cutAB)
	join(b, a, cutBA)
	return a, b
}

// MemTransport hands out harness connections.
type MemTransport struct {
	name    string
	mu      sync.Mutex
	options map[string]interface{}
	address string
	server  bool
	running bool
	next    chan ustack.TransportConnection
	stop    chan struct{}
	conns   []ustack.TransportConnection
	Runs    int
	Stops   int
}

// NewMemTransport ...
func NewMemTransport(name string) *MemTransport {
	return &MemTransport{name: name, options: map[string]interface{}{},
		next: make(chan ustack.TransportConnection, 1024), stop: make(chan struct{})}
}

func (t *MemTransport) GetName() string { return t.name }
func (t *MemTransport) SetOption(n string, v interface{}) ustack.Transport {
	t.options[n] = v
	return t
}
func (t *MemTransport) GetOption(n string) interface{}             { return t.options[n] }
func (t *MemTransport) ForServer(s bool) ustack.Transport          { t.server = s; return t }
func (t *MemTransport) SetAddress(address string) ustack.Transport { t.address = address; return t }
func (t *MemTransport) GetAddress() string                         { return t.address }

// Push offers a connection to the stack.
func (t *MemTransport) Push(c ustack.TransportConnection) {
	t.mu.Lock()
	conns := make([]ustack.TransportConnection, 0, len(t.conns)+1)
	for _, o := range t.conns {
		if !o.Closed() {
			conns = append(conns, o)
		}
	}
	t.conns = append(conns, c)
	next := t.next
	t.mu.Unlock()
	next <- c
}

// NextConnection ...
func (t *MemTransport) NextConnection() ustack.TransportConnection {
	t.mu.Lock()
	next, stop := t.next, t.stop
	t.mu.Unlock()
	select {
	case c := <-next:
		return c
	case <-stop:
		return nil
	}
}

// Run ...
func (t *MemTransport) Run() ustack.Transport {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.Runs++
	if t.running {
		return t
	}
	t.running = true
	select {
	case <-t.stop:
		t.stop = make(chan struct{})
	default:
	}
	return t
}

// Stop ...
func (t *MemTransport) Stop() ustack.Transport {
	t.mu.Lock()
	t.Stops++
	if !t.running {
		t.mu.Unlock()
		return t
	}
	t.running = false
	close(t.stop)
	conns := t.conns
	t.conns = nil
	t.mu.Unlock()
	for _, c := range conns {
		c.Close()
	}
	return t
}

// Probe is a processor written by the harness: it records and passes on.
type Probe struct {
	name     string
	overhead int
	Up, Low  ustack.DataProcessor
	US       ustack.UStack
	options  map[string]interface{}
	// OnUp sees data going down, OnLow data going up; return false to consume.
	OnUp   func(ctx ustack.Context) bool
	OnLow  func(ctx ustack.Context) bool
	OnEv   func(e ustack.Event)
	Events Bag[ustack.Event]
}

// NewProbe ...
func NewProbe(name string) *Probe { return &Probe{name: name, options: map[string]interface{}{}} }

func (p *Probe) SetName(n string) ustack.DataProcessor { p.name = n; return p }
func (p *Probe) GetName() string                       { return p.name }
func (p *Probe) GetOverhead() int                      { return p.overhead }
func (p *Probe) ForServer(bool) ustack.DataProcessor   { return p }
func (p *Probe) SetOption(n string, v interface{}) ustack.DataProcessor {
	p.options[n] = v
	return p
}
func (p *Probe) GetOption(n string) interface{}                       { return p.options[n] }
func (p *Probe) SetEnable(bool) ustack.DataProcessor                  { return p }
func (p *Probe) SetUStack(u ustack.UStack) ustack.DataProcessor       { p.US = u; return p }
func (p *Probe) SetUpper(u ustack.DataProcessor) ustack.DataProcessor { p.Up = u; return p }
func (p *Probe) SetLower(l ustack.DataProcessor) ustack.DataProcessor { p.Low = l; return p }
func (p *Probe) Run() ustack.DataProcessor                            { return p }
func (p *Probe) OnUpperData(ctx ustack.Context) {
	if p.OnUp == nil || p.OnUp(ctx) {
		p.Low.OnUpperData(ctx)
	}
}
func (p *Probe) OnLowerData(ctx ustack.Context) {
	if p.OnLow == nil || p.OnLow(ctx) {
		p.Up.OnLowerData(ctx)
	}
}
func (p *Probe) OnEvent(e ustack.Event) {
	if p.OnEv != nil {
		p.OnEv(e)
	}
	p.Events.Add(e)
}

// Feat is a feature written by the harness.
type Feat struct {
	name    string
	options map[string]interface{}
	US      ustack.UStack
	Runs    int
	OnEv    func(e ustack.Event)
	Events  Bag[ustack.Event]
}

// NewFeat ...
func NewFeat(name string) *Feat { return &Feat{name: name, options: map[string]interface{}{}} }

func (f *Feat) SetName(n string) ustack.Feature                  { f.name = n; return f }
func (f *Feat) GetName() string                                  { return f.name }
func (f *Feat) SetOption(n string, v interface{}) ustack.Feature { f.options[n] = v; return f }
func (f *Feat) GetOption(n string) interface{}                   { return f.options[n] }
func (f *Feat) SetUStack(u ustack.UStack) ustack.Feature         { f.US = u; return f }
func (f *Feat) Run() ustack.Feature                              { f.Runs++; return f }
func (f *Feat) OnEvent(e ustack.Event) {
	if f.OnEv != nil {
		f.OnEv(e)
	}
	f.Events.Add(e)
}

// Unit is a processor chain between two probes, driven directly.
type Unit struct {
	US       ustack.UStack
	Top, Bot *Probe
}

// NewUnit builds a stack [top probe, procs..., bottom probe] that consumes at both ends.
// top sees what the chain hands up, bot what it hands down.
func NewUnit(mtu int, onTop, onBot func(ctx ustack.Context), procs ...ustack.DataProcessor) *Unit {
	u := &Unit{US: ustack.NewUStack(), Top: NewProbe("top"), Bot: NewProbe("bot")}
	if mtu > 0 {
		u.US.SetOption("MTU", mtu)
	}
	u.Top.OnLow = func(ctx ustack.Context) bool { onTop(ctx); return false }
	u.Bot.OnUp = func(ctx ustack.Context) bool { onBot(ctx); return false }
	u.US.AppendDataProcessor(u.Top)
	for _, p := range procs {
		u.US.AppendDataProcessor(p)
	}
	u.US.AppendDataProcessor(u.Bot)
	u.US.Run()
	return u
}

// Down sends a context from above into the chain.
func (u *Unit) Down(ctx ustack.Context) { u.Top.Low.OnUpperData(ctx) }

// Upw sends a context from below into the chain.
func (u *Unit) Upw(ctx ustack.Context) { u.Bot.Up.OnLowerData(ctx) }

// rxBuf is the buffer the lower deck would have read b into.
func rxBuf(mtu int, b []byte) *ustack.UBuf {
	ub := ustack.UBufAlloc(mtu)
	if n, err := ub.Write(b); n != len(b) || err != nil {
		panic(fmt.Sprintf("harness: rxBuf %d into %d: %v", len(b), mtu, err))
	}
	return ub
}

// content peeks at everything readable.
func content(ub *ustack.UBuf) []byte {
	if ub == nil {
		return nil
	}
	n := ub.ReadableLength()
	b := make([]byte, n)
	if n > 0 {
		ub.Peek(b)
	}
	return b
}

// pause sleeps virtual (bubble) or real time.
func pause(d time.Duration) { time.Sleep(d) }
