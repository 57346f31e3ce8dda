package harness

import (
	"fmt"
	"io"
	"net"
	"runtime"
	"sync"
	"testing"
	"time"
	"weak"

	"ustack"
)

// keeper knows objects without keeping them.
type keeper struct {
	mu sync.Mutex
	l  []func() bool
}

func watch[T any](p *T) func() bool {
	w := weak.Make(p)
	return func() bool { return w.Value() != nil }
}

func (k *keeper) add(o interface{}) {
	var f func() bool
	switch x := o.(type) {
	case *MemConn:
		f = watch(x)
	case *MemTransport:
		f = watch(x)
	case *ustack.TCPTransportConnection:
		f = watch(x)
	case *ustack.UDSTransportConnection:
		f = watch(x)
	case *ustack.ReferenceTransportConnection:
		f = watch(x)
	case *ustack.TCPTransport:
		f = watch(x)
	case *ustack.UDSTransport:
		f = watch(x)
	case *ustack.ReferenceTransport:
		f = watch(x)
	case *ustack.DefaultEndPoint:
		f = watch(x)
	default:
		return
	}
	k.mu.Lock()
	defer k.mu.Unlock()
	k.l = append(k.l, f)
}

// count tells how many objects were watched and how many are still held by someone.
func (k *keeper) count() (total, held int) {
	runtime.GC()
	runtime.GC()
	k.mu.Lock()
	defer k.mu.Unlock()
	for _, f := range k.l {
		if f() {
			held++
		}
	}
	return len(k.l), held
}

func (k *keeper) check(c *C, what string, few int, wait func()) {
	var total, held int
	for n := 0; ; n++ {
		if total, held = k.count(); held <= few || n > 40 {
			break
		}
		wait()
		c.Tick()
	}
	if held > few {
		c.Fail("%s: %d of %d are still held by the stack", what, held, total)
	}
	c.H.Count("objects_watched", int64(total))
	c.H.Max("max_objects_still_held", int64(held))
}

func keepProcs(c *C) ([]ustack.DataProcessor, string) {
	r := c.R
	l := []ustack.DataProcessor{ustack.NewBytesCodec()}
	names := "bytes"
	if r.Intn(3) > 0 {
		names += " hb"
		l = append(l, ustack.NewHeartbeat().SetOption("IntervalInSecond", 1).SetOption("TimeoutInSecond", 2+r.Intn(60)).SetOption("CloseOnLost", r.Intn(2) == 0))
	}
	if r.Intn(3) > 0 {
		names += " stat"
		l = append(l, ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", r.Intn(2)))
	}
	return append(l, ustack.NewFrameDecoder()), names
}

func TestC25keep(t *testing.T) {
	Bubble(t, "C25keep", func(h *H) {
		for i := 0; i < h.N(24, 150); i++ {
			h.Case(fmt.Sprintf("mem-%d", i), func(c *C) { c25keepMem(h, c) })
			h.Case(fmt.Sprintf("add-%d", i), func(c *C) { c25keepAdd(h, c) })
		}
		for i := 0; i < h.N(4, 24); i++ {
			h.Case(fmt.Sprintf("heap-%d", i), func(c *C) { c25heap(h, c, i) })
		}
	})
}

// c25keepMem: a stack that lives on while its connections come and go.
func c25keepMem(h *H, c *C) {
	r := c.R
	procs, names := keepProcs(c)
	us := ustack.NewUStack().SetOption("MTU", 256)
	for _, p := range procs {
		us.AppendDataProcessor(p)
	}
	ep := ustack.NewEndPoint("e", 0)
	ep.SetDataListener(func(ep ustack.EndPoint, d ustack.EndPointData) {
		send(ep, d.GetConnection(), d.GetData())
	})
	tr := NewMemTransport("m")
	us.AddEndPoint(ep).AddTransport(tr).Run()
	var k keeper
	n := 60 + r.Intn(60)
	func() {
		for i := 0; i < n; i++ {
			cn := NewMemConn("c")
			cn.OnWrite = func(p []byte) (int, error) { return len(p), nil }
			k.add(cn)
			tr.Push(cn)
			for j := r.Intn(4); j > 0; j-- {
				b := []byte{0, 0}
				if r.Intn(3) == 0 {
					b[0] = tagBeat
				}
				cn.FeedBytes(frame(append(b, "data"...)))
			}
			if r.Intn(2) == 0 {
				cn.FeedBytes([]byte{0, 0, 0, 9, 1, 2}) // a partial frame stays behind
			}
			if r.Intn(4) == 0 {
				time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
			}
			switch r.Intn(4) {
			case 0:
				cn.Close()
			case 1:
				cn.Feed(Seg{Err: io.EOF})
			case 2:
				cn.FeedBytes([]byte{0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff})
			default:
				cn.Feed(Seg{Data: []byte{0, 0}, Err: io.EOF})
			}
		}
	}()
	time.Sleep(3 * time.Second)
	Settle()
	tr.Push(NewMemConn("last"))
	k.check(c, fmt.Sprintf("[%s] ended connections of a stack that runs on", names), 10, func() { time.Sleep(time.Second); Settle() })
	c.Sig(names, n)
	c.Logf("[%s] %d connections", names, n)
	us.DeleteTransport(tr)
	ep.SetDataListener(nil)
	us.DeleteEndPoint(ep)
	Settle()
}

// c25keepAdd: endpoints and transports that are added and removed.
func c25keepAdd(h *H, c *C) {
	r := c.R
	procs, names := keepProcs(c)
	us := ustack.NewUStack().SetOption("MTU", 256)
	for _, p := range procs {
		us.AppendDataProcessor(p)
	}
	us.Run()
	var ke, kt keeper
	n := 60 + r.Intn(60)
	func() {
		var eps []ustack.EndPoint
		var trs []ustack.Transport
		for i := 0; i < n; i++ {
			ep := ustack.NewEndPoint("e", i%7)
			ke.add(ep)
			us.AddEndPoint(ep)
			eps = append(eps, ep)
			if r.Intn(2) == 0 {
				ep.SetDataListener(func(ustack.EndPoint, ustack.EndPointData) {})
			}
			var tr ustack.Transport
			switch r.Intn(3) {
			case 0:
				m := NewMemTransport("m")
				cn := NewMemConn("c")
				kt.add(cn)
				m.Push(cn)
				tr = m
			case 1:
				tr = ustack.NewReferenceTransport("r").SetAddress(fmt.Sprintf("keep-%s-%d", c.Name, i))
			default:
				tr = newTransport([]string{"tcp", "unix"}[r.Intn(2)], newAddress("unix"), false)
				tr.SetOption("RetryIntervalInSecond", 1).SetOption("MaxRetryCount", 1+r.Intn(3))
			}
			kt.add(tr)
			us.AddTransport(tr)
			trs = append(trs, tr)
			if r.Intn(4) == 0 {
				Settle()
			}
			for len(eps) > 5 || i == n-1 && len(eps) > 0 {
				j := r.Intn(len(eps))
				us.DeleteEndPoint(eps[j])
				eps[j].SetDataListener(nil)
				us.DeleteTransport(trs[j])
				eps = append(eps[:j], eps[j+1:]...)
				trs = append(trs[:j], trs[j+1:]...)
			}
		}
		for i := range eps[:cap(eps)] {
			eps[:cap(eps)][i] = nil
		}
	}()
	wait := func() { time.Sleep(time.Second); Settle() }
	wait()
	ke.check(c, fmt.Sprintf("[%s] removed endpoints", names), 15, wait)
	kt.check(c, fmt.Sprintf("[%s] removed transports and their connections", names), 30, wait)
	c.Sig("add", names, n)
	c.Logf("[%s] %d endpoints and transports", names, n)
}

// c25heap: the memory in use after many cycles, with names and addresses that are all different.
func c25heap(h *H, c *C, idx int) {
	r := c.R
	procs, names := keepProcs(c)
	us := ustack.NewUStack().SetOption("MTU", 256)
	for _, p := range procs {
		us.AppendDataProcessor(p)
	}
	ep := ustack.NewEndPoint("e", 0)
	ep.SetDataListener(func(ustack.EndPoint, ustack.EndPointData) {})
	tr := NewMemTransport("m")
	us.AddEndPoint(ep).AddTransport(tr).Run()
	unique := func(what string, i int) string {
		return fmt.Sprintf("%s-%d-%d-%0500d", what, idx, i, i)
	}
	kinds := []string{"connections", "endpoints", "transports", "reference transports"}
	kind := kinds[idx%len(kinds)]
	cycle := func(i int) {
		switch kind {
		case "connections":
			cn := NewMemConn(unique("c", i))
			cn.OnWrite = func(p []byte) (int, error) { return len(p), nil }
			tr.Push(cn)
			cn.FeedBytes(frame([]byte{tagBeat}))
			if r.Intn(2) == 0 {
				cn.FeedBytes([]byte{0, 0, 0, 9, 1, 2})
			}
			if r.Intn(2) == 0 {
				cn.Close()
			} else {
				cn.Feed(Seg{Err: io.EOF})
			}
		case "endpoints":
			e := ustack.NewEndPoint(unique("e", i), 1+i)
			us.AddEndPoint(e)
			us.DeleteEndPoint(e)
		case "transports":
			t := NewMemTransport(unique("t", i))
			us.AddTransport(t)
			us.DeleteTransport(t)
		default:
			var t [2]ustack.Transport
			for s := range t {
				t[s] = ustack.NewReferenceTransport("r").ForServer(s == 0).SetAddress(unique("heap", i)).Run()
			}
			first := r.Intn(2)
			t[first].NextConnection().SetReference(make([]byte, 1000)) // stays behind
			t[first].Stop()
			t[1-first].Stop()
		}
		if i%50 == 0 { // the routines end: those that run at once are not more and more
			time.Sleep(3 * time.Second)
			Settle()
			c.Tick()
		}
	}
	used := func() int64 {
		time.Sleep(3 * time.Second)
		Settle()
		var m runtime.MemStats
		runtime.GC()
		runtime.GC()
		runtime.ReadMemStats(&m)
		return int64(m.HeapAlloc)
	}
	const warm, n = 500, 2500
	for i := 0; i < warm; i++ {
		cycle(i)
	}
	before := used()
	for i := warm; i < warm+n; i++ {
		cycle(i)
	}
	after := used()
	for again := 0; after-before > n*250 && again < 10; again++ {
		after = used()
	}
	if after-before > n*250 {
		c.Fail("[%s] %d %s came and went, %d bytes more are in use", names, n, kind, after-before)
	}
	h.Count("heap_cycles", n)
	h.Max("max_heap_growth", after-before)
	c.Sig("heap", kind, names)
	c.Logf("[%s] %d %s: %d bytes more are in use", names, n, kind, after-before)
	us.DeleteTransport(tr)
	ep.SetDataListener(nil)
	us.DeleteEndPoint(ep)
	Settle()
}

// c25keepSock: a server that runs on while its clients come and go.
func c25keepSock(h *H, c *C, kind string) {
	r := c.R
	procs, names := keepProcs(c)
	us := ustack.NewUStack().SetOption("MTU", 256)
	for _, p := range procs {
		us.AppendDataProcessor(p)
	}
	var k keeper
	var opened, closed Bag[int]
	us.SetEventListener(func(e ustack.Event) {
		switch e.Type {
		case ustack.UStackEventNewConnection:
			k.add(e.Data)
			opened.Add(1)
		case ustack.UStackEventConnectionClosed:
			closed.Add(1)
		}
	})
	ep := ustack.NewEndPoint("e", 0)
	us.Run()
	g0, _ := libGoroutines()
	s0 := sockets()
	ep.SetDataListener(func(ep ustack.EndPoint, d ustack.EndPointData) {})
	addr := newAddress(kind)
	tr := newTransport(kind, addr, true)
	us.AddEndPoint(ep).AddTransport(tr)
	total := 0
	for batch := 0; batch < 12; batch++ {
		var raws []net.Conn
		for j := 1 + r.Intn(16); j > 0; j-- {
			raws = append(raws, dialRaw(c, kind, addr))
			total++
		}
		for _, raw := range raws {
			if r.Intn(2) == 0 {
				raw.Write([]byte{0, 0, 0, 9, 1, 2})
			}
			raw.Close()
		}
		for n := 0; closed.Len() < total; n++ {
			if n > 30000 {
				c.Fail("%s: %d clients came and went, %d connections are closed after 30 s", kind, total, closed.Len())
			}
			time.Sleep(time.Millisecond)
		}
		c.Tick()
	}
	// one that stays
	last := dialRaw(c, kind, addr)
	for n := 0; opened.Len() < total+1; n++ {
		if n > 30000 {
			c.Fail("%s: a client is not accepted after 30 s", kind)
		}
		time.Sleep(time.Millisecond)
	}
	k.check(c, fmt.Sprintf("%s [%s] ended connections of a server that runs on", kind, names), 1+total/4, func() { time.Sleep(250 * time.Millisecond) })
	if err := last.SetReadDeadline(time.Now().Add(time.Millisecond)); err != nil {
		c.Abort("%v", err)
	}
	last.Close()
	us.DeleteTransport(tr)
	ep.SetDataListener(nil)
	us.DeleteEndPoint(ep)
	back(c, kind, g0, s0)
	h.Count("connections", int64(total))
	c.Sig("keep", kind, names, total)
	c.Logf("keep %s [%s] %d clients came and went", kind, names, total)
}
