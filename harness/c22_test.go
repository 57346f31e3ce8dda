package harness

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"ustack"
)

// The race detector and the runtime are the oracle here: goroutines do what an
// application may do, on stacks with every kind of transport and processor, and share
// nothing among themselves that would order them.

func TestC22(t *testing.T) {
	Plain(t, "C22", func(h *H) {
		for i := 0; i < h.N(60, 500); i++ {
			h.Case(fmt.Sprintf("mix-%d", i), func(c *C) { c22(h, c) })
		}
	})
}

// c22app is one application goroutine.
type c22app struct {
	us    ustack.UStack
	r     *rand.Rand
	eps   []ustack.EndPoint // shared endpoints, always added
	own   ustack.EndPoint   // added and removed by this goroutine only
	ownIn bool
	tr    func(r *rand.Rand) ustack.Transport
	trIn  ustack.Transport
	conns *c22conns
	refs  bool
	ops   [16]int64
}

// c22conns hands connections to application goroutines through channels of their own,
// filled by an event listener, as an application would.
type c22conns struct {
	ch []chan ustack.TransportConnection
}

func (x *c22conns) listener() func(ustack.Event) {
	return func(e ustack.Event) {
		if e.Type != ustack.UStackEventNewConnection {
			return
		}
		cn, ok := e.Data.(ustack.TransportConnection)
		if !ok {
			return
		}
		for _, c := range x.ch {
			select {
			case c <- cn:
			default:
			}
		}
	}
}

func (a *c22app) step(mine chan ustack.TransportConnection, known *[]ustack.TransportConnection) {
	for more := true; more; {
		select {
		case cn := <-mine:
			*known = append(*known, cn)
			if len(*known) > 64 {
				*known = (*known)[32:]
			}
		default:
			more = false
		}
	}
	pick := func() ustack.TransportConnection {
		if len(*known) == 0 {
			return nil
		}
		return (*known)[a.r.Intn(len(*known))]
	}
	trySend := func(ep ustack.EndPoint, cn ustack.TransportConnection) {
		var data interface{} = randBytes(a.r, 1+a.r.Intn(60))
		d := ustack.NewEndPointData().SetConnection(cn).SetData(data)
		if a.r.Intn(3) == 0 {
			d.SetDestinationSession(a.r.Intn(4))
		}
		select {
		case ep.GetTxChannel() <- d:
			a.ops[0]++
		default:
		}
	}
	switch k := a.r.Intn(100); {
	case k < 40:
		if cn := pick(); cn != nil {
			trySend(a.eps[a.r.Intn(len(a.eps))], cn)
		}
	case k < 50:
		select {
		case <-a.eps[a.r.Intn(len(a.eps))].GetRxChannel():
			a.ops[1]++
		default:
		}
	case k < 56:
		if cn := pick(); cn != nil {
			cn.Closed()
			cn.GetName()
			cn.UseReference()
			a.ops[2]++
		}
	case k < 58:
		if cn := pick(); cn != nil {
			cn.Close()
			a.ops[3]++
		}
	case k < 66:
		a.us.PublishEvent(ustack.Event{Type: 500, Data: a.r.Intn(40)})
		a.ops[4]++
	case k < 76:
		if a.ownIn {
			a.us.DeleteEndPoint(a.own)
		} else {
			a.us.AddEndPoint(a.own)
		}
		a.ownIn = !a.ownIn
		a.ops[5]++
	case k < 80:
		if cn := pick(); cn != nil {
			trySend(a.own, cn)
		}
	case k < 82:
		if a.trIn != nil {
			a.us.DeleteTransport(a.trIn)
			a.trIn = nil
		} else {
			a.trIn = a.tr(a.r)
			a.us.AddTransport(a.trIn)
		}
		a.ops[6]++
	case k < 92:
		for _, e := range a.us.GetEndPoint() {
			e.GetName()
		}
		for _, t := range a.us.GetTransport() {
			t.GetName()
		}
		for _, f := range a.us.GetFeatures() {
			f.GetName()
		}
		a.us.GetFeature("nothing")
		a.us.GetMTU()
		a.us.GetOverhead()
		a.us.GetName()
		a.us.GetOption("MTU")
		a.ops[7]++
	case k < 94:
		switch a.r.Intn(3) {
		case 0:
			a.own.SetDataListener(nil)
		default:
			a.own.SetDataListener(func(ep ustack.EndPoint, d ustack.EndPointData) {})
		}
		a.ops[8]++
	case k < 95:
		a.us.SetEventListener(func(ustack.Event) {})
		a.ops[9]++
	case k < 96:
		a.us.AddFeature(NewFeat("f"))
		a.ops[10]++
	default:
		spin(a.r, 50)
	}
}

func c22(h *H, c *C) {
	r := c.R
	refs := r.Intn(3) == 0
	var names []string
	build := func(hb bool) ustack.UStack {
		us := ustack.NewUStack().SetOption("MTU", 512)
		if !refs {
			us.AppendDataProcessor(ustack.NewBytesCodec())
			if r.Intn(2) == 0 {
				names = append(names, "session")
				us.AppendDataProcessor(ustack.NewSessionResolver())
			}
		}
		opt := []struct {
			n string
			p func() ustack.DataProcessor
		}{
			{"hb", func() ustack.DataProcessor {
				return ustack.NewHeartbeat().SetOption("IntervalInSecond", 1).SetOption("TimeoutInSecond", 1)
			}},
			{"stat", func() ustack.DataProcessor { return ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", 1) }},
			{"flow", ustack.NewFlowController},
			{"filter", func() ustack.DataProcessor {
				return ustack.NewFilter(func(ustack.Context, bool) bool { return true })
			}},
			{"lb", func() ustack.DataProcessor { return ustack.NewLoadBalancer().SetEnable(false) }},
			{"echo-", func() ustack.DataProcessor { return ustack.NewEcho().SetEnable(false) }},
		}
		for _, k := range r.Perm(len(opt)) {
			if r.Intn(2) == 0 {
				if opt[k].n == "hb" && !hb {
					continue
				}
				names = append(names, opt[k].n)
				us.AppendDataProcessor(opt[k].p())
			}
		}
		names = append(names, "frame")
		us.AppendDataProcessor(ustack.NewFrameDecoder())
		return us
	}
	kind := []string{"tcp", "unix"}[r.Intn(2)]
	addr := newAddress(kind)
	raddr := "c22-" + c.Name
	srv := build(r.Intn(3) == 0)
	hasHb := strings.Contains(strings.Join(names, " "), "hb")
	apps := 2 + r.Intn(5)
	conns := &c22conns{}
	for k := 0; k < apps; k++ {
		conns.ch = append(conns.ch, make(chan ustack.TransportConnection, 256))
	}
	srv.SetEventListener(conns.listener())
	eps := []ustack.EndPoint{ustack.NewEndPoint("a", 0), ustack.NewEndPoint("b", 1)}
	// listeners that use the stack themselves
	extra := ustack.NewEndPoint("extra", 2)
	if r.Intn(2) == 0 {
		srv.SetEventListener(func(e ustack.Event) {
			if cn, ok := e.Data.(ustack.TransportConnection); ok && e.Type == ustack.UStackEventNewConnection {
				if n := cn.GetName(); len(n) > 0 && n[len(n)-1] == '7' {
					cn.Close()
				}
				return
			}
			if e.Type != 500 {
				return
			}
			switch e.Data.(int) {
			case 0:
				srv.AddEndPoint(extra)
			case 1:
				srv.DeleteEndPoint(extra)
			case 2:
				srv.PublishEvent(ustack.Event{Type: 501})
			case 3:
				srv.GetEndPoint()
				srv.GetTransport()
			}
		})
	}
	inside := r.Intn(2) == 0
	if r.Intn(2) == 0 {
		eps[1].SetDataListener(func(ep ustack.EndPoint, d ustack.EndPointData) {
			if b, ok := d.GetData().([]byte); ok && inside && len(b) > 1 {
				switch b[len(b)-1] {
				case 0, 1, 2, 3:
					srv.DeleteEndPoint(ep)
					srv.AddEndPoint(ep)
				case 4, 5:
					d.GetConnection().Close()
				case 6, 7:
					srv.PublishEvent(ustack.Event{Type: 502})
				}
			}
			select {
			case ep.GetTxChannel() <- ustack.NewEndPointData().SetConnection(d.GetConnection()).SetData(d.GetData()):
			default:
			}
		})
	}
	for _, e := range eps {
		srv.AddEndPoint(e)
	}
	var main ustack.Transport
	if refs {
		main = ustack.NewReferenceTransport("r").ForServer(true).SetAddress(raddr).SetOption("MaxQueueSize", 8)
	} else {
		main = newTransport(kind, addr, true)
	}
	srv.AddTransport(main)
	srv.Run()
	var quit atomic.Bool
	var wg sync.WaitGroup
	var stats [16]int64
	own := make([]*c22app, apps)
	for k := 0; k < apps; k++ {
		a := &c22app{us: srv, r: rand.New(rand.NewSource(r.Int63())), eps: eps, own: ustack.NewEndPoint("own", 10+k), conns: conns, refs: refs}
		a.tr = func(r *rand.Rand) ustack.Transport {
			switch r.Intn(4) {
			case 0:
				return NewMemTransport("m")
			case 1:
				return ustack.NewReferenceTransport("x").ForServer(r.Intn(2) == 0).SetAddress(fmt.Sprint(raddr, "-", k))
			case 2:
				// nobody there
				return newTransport(kind, newAddress(kind), false).SetOption("RetryIntervalInSecond", 1)
			}
			kind := []string{"tcp", "unix"}[r.Intn(2)]
			return newTransport(kind, newAddress(kind), true)
		}
		own[k] = a
		wg.Add(1)
		go func() {
			defer wg.Done()
			var known []ustack.TransportConnection
			for n := 0; !quit.Load(); n++ {
				a.step(conns.ch[k], &known)
			}
		}()
	}
	// peers come and go
	peers := 1 + r.Intn(4)
	if refs {
		peers = 1
	}
	var dialled int64
	for k := 0; k < peers; k++ {
		pr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			n := int64(0)
			for !quit.Load() {
				if refs {
					p := ustack.NewReferenceTransport("p").ForServer(false).SetAddress(raddr).SetOption("MaxQueueSize", 8)
					p.Run()
					// nobody may read on the other side: the stop ends the waiting
					stopped := make(chan struct{})
					after := time.Duration(pr.Intn(3000)) * time.Microsecond
					go func() { time.Sleep(after); p.Stop(); close(stopped) }()
					cn := p.NextConnection()
					if cn != nil {
						for j := 0; j < 30 && !cn.Closed(); j++ {
							if pr.Intn(2) == 0 {
								cn.SetReference(randBytes(pr, 4))
							} else {
								spin(pr, 30)
							}
						}
					}
					<-stopped
					n++
					continue
				}
				raw, err := net.DialTimeout(kind, addr, time.Second)
				if err != nil {
					time.Sleep(time.Millisecond)
					continue
				}
				n++
				drained := make(chan struct{})
				go func() { io.Copy(io.Discard, raw); close(drained) }()
				for j := pr.Intn(60); j > 0; j-- {
					p := randBytes(pr, pr.Intn(40))
					var err error
					switch pr.Intn(40) {
					case 0:
						_, err = raw.Write(p)
					case 1:
						_, err = raw.Write([]byte{0xff, 0xff, 0xff, 0xff})
					default:
						for i := 0; i < 8 && i < len(p); i++ {
							p[i] = 0
						}
						_, err = raw.Write(frame(p))
					}
					if err != nil {
						break
					}
				}
				raw.Close()
				<-drained
			}
			atomic.AddInt64(&dialled, n)
		}()
	}
	d := time.Duration(50+r.Intn(50)) * time.Millisecond
	if hasHb {
		d += time.Duration(r.Intn(400)) * time.Millisecond
	}
	time.Sleep(d)
	quit.Store(true)
	stop := make(chan struct{})
	go func() {
		wg.Wait()
		close(stop)
	}()
	for k, waiting := 0, true; waiting; k++ {
		select {
		case <-stop:
			waiting = false
		case <-time.After(10 * time.Millisecond):
			for _, e := range eps {
				select {
				case <-e.GetRxChannel():
				default:
				}
			}
			if k > 3000 {
				c.Fail("an application goroutine is stuck 30 s after the end")
			}
		}
	}
	srv.DeleteTransport(main)
	for _, a := range own {
		if a.trIn != nil {
			srv.DeleteTransport(a.trIn)
		}
		srv.DeleteEndPoint(a.own)
		a.own.SetDataListener(nil)
		for k, n := range a.ops {
			stats[k] += n
		}
	}
	srv.DeleteEndPoint(extra)
	for _, e := range eps {
		srv.DeleteEndPoint(e)
		e.SetDataListener(nil)
	}
	total := int64(0)
	for k, n := range []string{"sends", "receives", "connection_queries", "closes", "publications", "endpoint_changes", "transport_changes", "queries", "listener_changes", "stack_listeners", "features"} {
		h.Count(n, stats[k])
		total += stats[k]
	}
	h.Count("peer_connections", dialled)
	c.Sig(strings.Join(names, " "), apps, kind, refs, dialled, total)
	c.Logf("[%s] %d application goroutines, %s refs=%v, %d peer connections, %d operations", strings.Join(names, " "), apps, kind, refs, dialled, total)
}
