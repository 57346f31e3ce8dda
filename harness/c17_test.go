package harness

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"syscall"
	"testing"
	"time"

	"ustack"
)

// lifeLog records what every observer of a stack sees, in one global order.
type lifeLog struct {
	c    *C
	mu   sync.Mutex
	l    []lifeEnt
	obs  int
	wake chan struct{}
}

type lifeEnt struct {
	obs  string
	kind string // new, data, closed, lost
	cn   ustack.TransportConnection
}

func (g *lifeLog) add(obs, kind string, cn ustack.TransportConnection) {
	g.mu.Lock()
	g.l = append(g.l, lifeEnt{obs, kind, cn})
	g.mu.Unlock()
}

func (g *lifeLog) event(obs string, e ustack.Event) {
	switch e.Type {
	case ustack.UStackEventNewConnection, ustack.UStackEventConnectionClosed:
		cn, ok := e.Data.(ustack.TransportConnection)
		if !ok {
			g.c.Fail("%s: event %d carries %T", obs, e.Type, e.Data)
		}
		if e.Type == ustack.UStackEventNewConnection {
			g.add(obs, "new", cn)
			return
		}
		if !cn.Closed() {
			g.c.Fail("%s: the connection-closed event came while the connection reports itself open", obs)
		}
		g.add(obs, "closed", cn)
	}
}

// watch installs observers of every kind; call before Run. Returns processors to put on top.
func (g *lifeLog) watch(us ustack.UStack) (top *Probe) {
	for k := 0; k < 2; k++ {
		name := fmt.Sprint("listener", k)
		us.SetEventListener(func(e ustack.Event) { g.event(name, e) })
	}
	f := NewFeat("f")
	f.OnEv = func(e ustack.Event) { g.event("feature", e) }
	us.AddFeature(f)
	top = NewProbe("top")
	top.OnEv = func(e ustack.Event) { g.event("processor", e) }
	top.OnLow = func(ctx ustack.Context) bool { g.add("top", "data", ctx.GetConnection()); return true }
	return top
}

func (g *lifeLog) endpoint(name string, ep ustack.EndPoint) {
	ep.SetEventListener(func(_ ustack.EndPoint, e ustack.Event) { g.event(name, e) })
}

// count tells how many closed events observers saw for a connection.
func (g *lifeLog) count(kind string, cn ustack.TransportConnection) int {
	g.mu.Lock()
	defer g.mu.Unlock()
	n := 0
	for _, e := range g.l {
		if e.kind == kind && e.cn == cn {
			n++
		}
	}
	return n
}

// check judges the whole log for the connections given.
func (g *lifeLog) check(observers []string, cns []ustack.TransportConnection, mustClose bool) {
	g.mu.Lock()
	l := append([]lifeEnt(nil), g.l...)
	g.mu.Unlock()
	known := map[ustack.TransportConnection]bool{}
	for _, cn := range cns {
		known[cn] = true
		seenNew, seenClosed := map[string]int{}, map[string]int{}
		for _, e := range l {
			if e.cn != cn {
				continue
			}
			switch e.kind {
			case "new":
				seenNew[e.obs]++
			case "closed":
				if seenNew[e.obs] == 0 {
					g.c.Fail("%s saw a connection closed that was not announced", e.obs)
				}
				seenClosed[e.obs]++
			case "data":
				for _, o := range observers {
					if seenNew[o] == 0 {
						g.c.Fail("data was delivered before %s saw the connection announced", o)
					}
					if seenClosed[o] != 0 {
						g.c.Fail("data was delivered after %s saw the connection closed", o)
					}
				}
			}
		}
		for _, o := range observers {
			if seenNew[o] != 1 {
				g.c.Fail("%s saw %d new-connection events of one connection", o, seenNew[o])
			}
			if seenClosed[o] > 1 || mustClose && seenClosed[o] == 0 {
				g.c.Fail("%s saw %d connection-closed events of one ended connection (%s)", o, seenClosed[o], cn.GetName())
			}
		}
	}
	for _, e := range l {
		if !known[e.cn] {
			g.c.Fail("%s: %s of an unknown connection", e.obs, e.kind)
		}
	}
}

var endCauses = []string{"local", "eof", "eof+data", "err", "err+data", "write", "hb", "removal", "badframe", "in-new", "in-data", "stuck", "none"}

func TestC17(t *testing.T) {
	Bubble(t, "C17", func(h *H) {
		n := h.N(260, 800)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { c17(h, c) })
		}
		for i := 0; i < h.N(4, 24); i++ {
			h.Case(fmt.Sprintf("many-%d", i), func(c *C) { c17many(h, c) })
		}
		for i := 0; i < h.N(60, 600); i++ {
			h.Case(fmt.Sprintf("ref-%d", i), func(c *C) { c17ref(h, c) })
		}
	})
}

func c17(h *H, c *C) {
	r := c.R
	g := &lifeLog{c: c}
	us := ustack.NewUStack().SetOption("MTU", 128)
	tr := NewMemTransport("mem")
	top := g.watch(us)
	us.AppendDataProcessor(ustack.NewBytesCodec())
	us.AppendDataProcessor(top)
	withHb := r.Intn(2) == 0
	if withHb {
		us.AppendDataProcessor(ustack.NewHeartbeat().SetOption("TimeoutInSecond", 3))
	}
	us.AppendDataProcessor(ustack.NewFrameDecoder())
	type link struct {
		cn    *MemConn
		ends  []string
		fromN int
	}
	links := map[ustack.TransportConnection]*link{}
	has := func(x *link, e string) bool {
		for _, k := range x.ends {
			if k == e {
				return true
			}
		}
		return false
	}
	ep := ustack.NewEndPoint("e", 0)
	ep2 := ustack.NewEndPoint("e2", 1)
	g.endpoint("endpoint", ep)
	g.endpoint("endpoint2", ep2)
	got := map[ustack.TransportConnection]int{}
	useListener := r.Intn(3) > 0
	var mu sync.Mutex
	if useListener {
		ep.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) {
			mu.Lock()
			got[d.GetConnection()]++
			n := got[d.GetConnection()]
			mu.Unlock()
			if x := links[d.GetConnection()]; x != nil && n == 2 && has(x, "in-data") {
				d.GetConnection().Close()
			}
			// answer: exercises the write path
			send(ep, d.GetConnection(), d.GetData())
		})
	}
	us.SetEventListener(func(e ustack.Event) {
		if cn, ok := e.Data.(*MemConn); ok && e.Type == ustack.UStackEventNewConnection {
			if x := links[cn]; x != nil && has(x, "in-new") {
				cn.Close()
			}
		}
	})
	us.AddEndPoint(ep)
	us.AddEndPoint(ep2)
	us.AddTransport(tr)
	var xs []*link
	removal := false
	for k := 1 + r.Intn(5); k > 0; k-- {
		x := &link{cn: NewMemConn("same")}
		for e := 1 + r.Intn(3); e > 0; e-- {
			cause := endCauses[r.Intn(len(endCauses))]
			if cause == "hb" && !withHb {
				cause = "local"
			}
			x.ends = append(x.ends, cause)
			removal = removal || cause == "removal"
		}
		fails := 1 + r.Intn(3)
		var wmu sync.Mutex
		nw := 0
		partial := r.Intn(2) == 0
		fault := ioFault(r)
		x.cn.OnWrite = func(p []byte) (int, error) {
			wmu.Lock()
			nw++
			bad := has(x, "write") && nw >= fails
			wmu.Unlock()
			if bad {
				if partial {
					return len(p) / 2, fault
				}
				return 0, fault
			}
			return len(p), nil
		}
		links[x.cn] = x
		xs = append(xs, x)
		c.Logf("connection %d ends: %v", x.cn.ID, x.ends)
		c.Sig(x.ends)
	}
	us.Run()
	Settle()
	m := func(p []byte) []byte {
		if withHb {
			p = append([]byte{upTag("hb")}, p...)
		}
		return frame(p)
	}
	for _, x := range xs {
		tr.Push(x.cn)
		if r.Intn(2) == 0 {
			Settle()
		}
	}
	// some data first
	var wg sync.WaitGroup
	for _, x := range xs {
		n := r.Intn(6)
		if has(x, "in-data") && n < 3 {
			n = 3
		}
		var s []byte
		for k := 0; k < n; k++ {
			s = append(s, m(randBytes(r, 1+r.Intn(40)))...)
		}
		x.cn.FeedBytes(cut(r, s, 128)...)
	}
	if r.Intn(2) == 0 {
		Settle()
	}
	// all ends at the same moment, each by its own goroutine
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(2500)) * time.Millisecond)
	}
	for _, x := range xs {
		for _, e := range x.ends {
			payload := m(randBytes(r, 1+r.Intn(30)))
			fault := ioFault(r)
			wg.Add(1)
			go func() {
				defer wg.Done()
				switch e {
				case "local":
					x.cn.Close()
				case "eof":
					x.cn.Feed(Seg{Err: io.EOF})
				case "eof+data":
					x.cn.Feed(Seg{Data: payload, Err: io.EOF})
				case "err":
					x.cn.Feed(Seg{Err: fault})
				case "err+data":
					x.cn.Feed(Seg{Data: payload, Err: fault})
				case "write":
					for k := 0; k < 5; k++ {
						send(ep, x.cn, []byte("x"))
						send(ep2, x.cn, []byte("x"))
					}
				case "badframe":
					x.cn.FeedBytes(bytes.Repeat([]byte{0xff}, 64))
				case "stuck":
					// more than the endpoint takes, then the end while the reader waits
					if useListener {
						x.cn.Close()
						return
					}
					for k := 0; k < 600; k++ {
						x.cn.FeedBytes(m([]byte{1}))
					}
				}
			}()
		}
	}
	if removal {
		wg.Add(1)
		go func() { defer wg.Done(); us.DeleteTransport(tr) }()
	}
	wg.Wait()
	Settle()
	time.Sleep(6 * time.Second)
	// consumers drain, everything not yet ended is ended by removing the transport
	if !useListener {
		drain(ep)
	}
	Settle()
	observers := []string{"listener0", "listener1", "feature", "processor", "endpoint", "endpoint2"}
	var cns []ustack.TransportConnection
	for _, x := range xs {
		if g.count("new", x.cn) == 0 {
			if !removal {
				c.Fail("a connection was never announced")
			}
			// dropped with the transport before it was delivered
			continue
		}
		cns = append(cns, x.cn)
		natural := false
		for _, e := range x.ends {
			natural = natural || e != "none" && e != "stuck" && !(e == "in-data" && !useListener)
		}
		if natural && g.count("closed", x.cn) != len(observers) {
			c.Fail("connection %d ended by %v: %d of %d observers saw it closed", x.cn.ID, x.ends, g.count("closed", x.cn), len(observers))
		}
	}
	g.check(observers, cns, false)
	us.DeleteTransport(tr)
	if !useListener {
		drain(ep)
	}
	Settle()
	time.Sleep(2 * time.Second)
	Settle()
	g.check(observers, cns, true)
	h.Count("connections", int64(len(cns)))
	g.mu.Lock()
	h.Count("observations", int64(len(g.l)))
	g.mu.Unlock()
	us.DeleteEndPoint(ep)
	us.DeleteEndPoint(ep2)
	Settle()
}

// real sockets and reference transports
func TestC17sock(t *testing.T) {
	Plain(t, "C17sock", func(h *H) {
		n := h.N(16, 120)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { c17sock(h, c, i) })
		}
	})
}

func c17sock(h *H, c *C, idx int) {
	r := c.R
	kind := []string{"tcp", "unix", "ref"}[idx%3]
	g := &lifeLog{c: c}
	us := ustack.NewUStack()
	top := g.watch(us)
	if kind != "ref" {
		us.AppendDataProcessor(ustack.NewBytesCodec())
	}
	us.AppendDataProcessor(top)
	us.AppendDataProcessor(ustack.NewFrameDecoder())
	ep := ustack.NewEndPoint("e", 0)
	g.endpoint("endpoint", ep)
	ep.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) { send(ep, d.GetConnection(), d.GetData()) })
	us.AddEndPoint(ep)
	observers := []string{"listener0", "listener1", "feature", "processor", "endpoint"}
	conns := make(chan ustack.TransportConnection, 100)
	us.SetEventListener(func(e ustack.Event) {
		if e.Type == ustack.UStackEventNewConnection {
			conns <- e.Data.(ustack.TransportConnection)
		}
	})
	n := 2 + r.Intn(6)
	var cns []ustack.TransportConnection
	next := func() ustack.TransportConnection {
		select {
		case cn := <-conns:
			cns = append(cns, cn)
			return cn
		case <-time.After(30 * time.Second):
			c.Fail("%s: no connection was announced within 30 s", kind)
			return nil
		}
	}
	var trs []ustack.Transport
	var wg sync.WaitGroup
	rnd := func() *rand.Rand { return rand.New(rand.NewSource(r.Int63())) }
	ends := []string{}
	if kind == "ref" {
		us.Run()
		for k := 0; k < n; k++ {
			addr := fmt.Sprintf("c17-%d-%d", idx, k)
			a := ustack.NewReferenceTransport("a").SetAddress(addr)
			b := ustack.NewReferenceTransport("b").SetAddress(addr).ForServer(false).Run()
			bc := b.NextConnection()
			us.AddTransport(a)
			trs = append(trs, a, b)
			cn := next()
			bc.SetReference("hello")
			e := r.Intn(3)
			ends = append(ends, fmt.Sprint(e))
			for _, f := range []int{e, r.Intn(3)} {
				wg.Add(1)
				go func() {
					defer wg.Done()
					switch f {
					case 0:
						cn.Close()
					case 1:
						us.DeleteTransport(a)
					case 2:
						cn.Close()
						us.DeleteTransport(a)
						cn.Close()
					}
				}()
			}
		}
	} else {
		addr := newAddress(kind)
		tr := newTransport(kind, addr, true)
		trs = append(trs, tr)
		us.AddTransport(tr).Run()
		for k := 0; k < n; k++ {
			raw := dialRaw(c, kind, addr)
			cn := next()
			e := r.Intn(6)
			ends = append(ends, fmt.Sprint(e))
			rr := rnd()
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := rr.Intn(5); k > 0; k-- {
					raw.Write(frame([]byte("hello")))
				}
				for _, f := range []int{e, rr.Intn(6)} {
					switch f {
					case 0:
						raw.Close()
					case 1:
						if t, ok := raw.(*net.TCPConn); ok {
							t.SetLinger(0)
						}
						raw.Close()
					case 2:
						if t, ok := raw.(*net.TCPConn); ok {
							t.CloseWrite()
						} else {
							raw.(*net.UnixConn).CloseWrite()
						}
					case 3:
						cn.Close()
					case 4:
						cn.Close()
						cn.Close()
					case 5:
						raw.Write(bytes.Repeat([]byte{0xff}, 100))
					}
				}
			}()
		}
	}
	wg.Wait()
	waitAll := func(what string) {
		for spin := 0; ; spin++ {
			left := 0
			for _, cn := range cns {
				if g.count("closed", cn) < len(observers) {
					left++
				}
			}
			if left == 0 {
				return
			}
			if spin > 6000 {
				c.Fail("%s %s: %d of %d ended connections were not reported closed within 30 s", kind, what, left, len(cns))
			}
			time.Sleep(5 * time.Millisecond)
			c.Tick()
		}
	}
	waitAll("ended")
	// two more that end with the transport
	if kind != "ref" {
		for k := 0; k < 2; k++ {
			raw := dialRaw(c, kind, trs[0].GetAddress())
			defer raw.Close()
			next()
		}
	}
	for _, t := range trs {
		us.DeleteTransport(t)
		t.Stop()
	}
	waitAll("transport removed")
	time.Sleep(3 * time.Millisecond)
	g.check(observers, cns, true)
	h.Count("connections", int64(len(cns)))
	c.Sig(kind, ends)
	c.Logf("%s ends=%v", kind, ends)
	us.DeleteEndPoint(ep)
	ep.SetDataListener(nil)
}

// memRef is a reference connection whose calls fail on demand.
type memRef struct {
	*MemConn
	in     chan interface{}
	getErr chan error
	setErr bool
	out    Bag[interface{}]
}

func (m *memRef) UseReference() bool { return true }
func (m *memRef) GetReference() (interface{}, error) {
	select {
	case v := <-m.in:
		return v, nil
	default:
	}
	select {
	case v := <-m.in:
		return v, nil
	case err := <-m.getErr:
		return nil, err
	case <-m.closed:
		return nil, errMemClosed
	}
}
func (m *memRef) SetReference(p interface{}) error {
	if m.Closed() {
		return errMemClosed
	}
	if m.setErr {
		return errGarbage
	}
	m.out.Add(p)
	return nil
}

// c17ref: reference connections whose send or receive calls fail.
func c17ref(h *H, c *C) {
	r := c.R
	g := &lifeLog{c: c}
	us := ustack.NewUStack()
	us.AppendDataProcessor(g.watch(us))
	for _, x := range r.Perm(4)[:r.Intn(4)] {
		us.AppendDataProcessor(mkHdr([]string{"hb", "stat", "lb", "frame"}[x]))
	}
	ep := ustack.NewEndPoint("e", 0)
	g.endpoint("endpoint", ep)
	us.AddEndPoint(ep)
	tr := NewMemTransport("mem")
	us.AddTransport(tr).Run()
	observers := []string{"listener0", "listener1", "feature", "processor", "endpoint"}
	var refs []*memRef
	var cns []ustack.TransportConnection
	n := 1 + r.Intn(4)
	for k := 0; k < n; k++ {
		x := &memRef{MemConn: NewMemConn("same"), in: make(chan interface{}, 8), getErr: make(chan error, 8)}
		refs, cns = append(refs, x), append(cns, x)
		tr.Push(x)
	}
	Settle()
	var ends []int
	live := 0
	for _, x := range refs {
		for k := r.Intn(4); k > 0; k-- {
			x.in <- &Obj{A: k}
		}
		e := r.Intn(5)
		ends = append(ends, e)
		switch e {
		case 0: // the send call fails
			x.setErr = true
			send(ep, x, &Obj{})
			if r.Intn(2) == 0 {
				send(ep, x, &Obj{})
			}
		case 1: // the receive call fails
			x.getErr <- errGarbage
		case 2:
			x.Close()
		case 3: // both
			x.setErr = true
			x.getErr <- io.EOF
			send(ep, x, &Obj{})
		case 4:
			live++
			send(ep, x, &Obj{A: 5})
		}
	}
	drain(ep)
	for k, x := range refs {
		want := len(observers)
		if ends[k] == 4 {
			want = 0
			if x.out.Len() != 1 {
				c.Fail("an object sent on an open reference connection left %d times", x.out.Len())
			}
		}
		if got := g.count("closed", x); got != want {
			c.Fail("reference connection %d (end %d): %d closed events at %d observers", k, ends[k], got, len(observers))
		}
		if x.Closed() != (ends[k] != 4) {
			c.Fail("reference connection %d (end %d): closed is %v", k, ends[k], x.Closed())
		}
	}
	us.DeleteTransport(tr)
	drain(ep)
	g.check(observers, cns, true)
	h.Count("connections", int64(n))
	c.Sig("ref", ends, n)
	c.Logf("reference connections, ends=%v", ends)
	us.DeleteEndPoint(ep)
	Settle()
}

// dialRaw dials until the server is there.
func dialRaw(c *C, kind, addr string) net.Conn {
	for k := 0; k < 3000; k++ {
		cn, err := net.DialTimeout(kind, addr, 5*time.Second)
		if err == nil {
			return cn
		}
		time.Sleep(10 * time.Millisecond)
	}
	c.Fail("%s: nothing listens on %s after 30 s", kind, addr)
	return nil
}

type timeoutFault struct{}

func (timeoutFault) Error() string   { return "i/o timeout" }
func (timeoutFault) Timeout() bool   { return true }
func (timeoutFault) Temporary() bool { return true }

// ioFault is an error a connection fails with.
func ioFault(r *rand.Rand) error {
	l := []error{errGarbage, errors.New("broken pipe"), io.ErrUnexpectedEOF, io.ErrClosedPipe, net.ErrClosed,
		&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET}, syscall.EPIPE, syscall.ETIMEDOUT, timeoutFault{},
		&net.OpError{Op: "write", Net: "tcp", Err: timeoutFault{}}, os.ErrDeadlineExceeded, io.ErrShortWrite, io.ErrNoProgress}
	return l[r.Intn(len(l))]
}

// c17many: one transport yields hundreds of connections, one after the other or at once.
func c17many(h *H, c *C) {
	r := c.R
	g := &lifeLog{c: c}
	us := ustack.NewUStack().SetOption("MTU", 128)
	tr := NewMemTransport("mem")
	top := g.watch(us)
	us.AppendDataProcessor(ustack.NewBytesCodec())
	us.AppendDataProcessor(top)
	us.AppendDataProcessor(ustack.NewFrameDecoder())
	ep := ustack.NewEndPoint("e", 0)
	g.endpoint("endpoint", ep)
	ep.SetDataListener(func(ustack.EndPoint, ustack.EndPointData) {})
	us.AddEndPoint(ep)
	us.AddTransport(tr)
	us.Run()
	Settle()
	var cns []ustack.TransportConnection
	n := 300 + r.Intn(500)
	stay := r.Intn(2) == 0
	for k := 0; k < n; k++ {
		cn := NewMemConn("same")
		cns = append(cns, cn)
		cn.FeedBytes(frame([]byte{1}))
		tr.Push(cn)
		if !stay {
			cn.Feed(Seg{Err: io.EOF})
		}
		if r.Intn(8) == 0 {
			Settle()
		}
	}
	Settle()
	observers := []string{"listener0", "listener1", "feature", "processor", "endpoint"}
	for k, cn := range cns {
		if got := g.count("new", cn); got != len(observers) {
			c.Fail("connection %d of %d: %d of %d observers were told of it", k, n, got, len(observers))
		}
	}
	g.check(observers, cns, !stay)
	us.DeleteTransport(tr)
	for _, cn := range cns {
		cn.Close()
	}
	Settle()
	g.check(observers, cns, true)
	us.DeleteEndPoint(ep)
	ep.SetDataListener(nil)
	Settle()
	h.Count("connections", int64(n))
	c.Sig("many", n, stay)
}
