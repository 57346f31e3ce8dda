package harness

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"ustack"
)

// libGoroutines are the goroutines the library started and that did not end.
func libGoroutines() (int, string) {
	buf := make([]byte, 1<<20)
	for {
		n := runtime.Stack(buf, true)
		if n < len(buf) {
			buf = buf[:n]
			break
		}
		buf = make([]byte, 2*len(buf))
	}
	n := 0
	var kinds []string
	for _, g := range strings.Split(string(buf), "\n\n") {
		if i := strings.Index(g, "created by ustack."); i >= 0 {
			n++
			l := strings.SplitN(g[i:], "\n", 2)[0]
			if j := strings.Index(l, " in goroutine"); j > 0 {
				l = l[:j]
			}
			kinds = append(kinds, l+" at "+topFrame(g))
		}
	}
	return n, strings.Join(kinds, "; ")
}

func topFrame(g string) string {
	for _, l := range strings.Split(g, "\n") {
		if strings.HasPrefix(l, "ustack.") {
			return strings.SplitN(l, "(0x", 2)[0]
		}
	}
	return "?"
}

// sockets counts the process' socket descriptors.
func sockets() int {
	l, err := os.ReadDir("/proc/self/fd")
	if err != nil {
		return -1
	}
	n := 0
	for _, e := range l {
		if t, err := os.Readlink("/proc/self/fd/" + e.Name()); err == nil && strings.HasPrefix(t, "socket:") {
			n++
		}
	}
	return n
}

func TestC25(t *testing.T) {
	Bubble(t, "C25", func(h *H) {
		for i := 0; i < h.N(90, 250); i++ {
			h.Case(fmt.Sprintf("mem-%d", i), func(c *C) { c25mem(h, c) })
		}
	})
}

// c25mem: cycles on in-memory connections and reference connections.
func c25mem(h *H, c *C) {
	r := c.R
	us := ustack.NewUStack().SetOption("MTU", 256)
	var comp []string
	add := func(name string, p ustack.DataProcessor) {
		comp = append(comp, name)
		us.AppendDataProcessor(p)
	}
	refs := r.Intn(4) == 0
	session := !refs && r.Intn(2) == 0
	if !refs {
		add("bytes", ustack.NewBytesCodec())
		if session {
			add("session", ustack.NewSessionResolver())
		}
	}
	wait := time.Duration(0)
	hbOn := r.Intn(2) == 0
	timeout := 2 + r.Intn(4)
	if hbOn {
		iv := 1 + r.Intn(4)
		if r.Intn(5) == 0 {
			iv = 30 + r.Intn(100)
		}
		hb := ustack.NewHeartbeat().SetOption("IntervalInSecond", iv).SetOption("TimeoutInSecond", timeout)
		if r.Intn(2) == 0 {
			hb.SetOption("CloseOnLost", false)
		}
		add(fmt.Sprint("hb", iv), hb)
		wait = time.Duration(iv) * time.Second
	}
	if r.Intn(2) == 0 {
		sc := ustack.NewStatCounter()
		if r.Intn(3) > 0 {
			iv := 1 + r.Intn(4)
			sc.SetOption("Collect.IntervalInSecond", iv)
			if d := time.Duration(iv) * time.Second; d > wait {
				wait = d
			}
			add(fmt.Sprint("stat", iv), sc)
		} else {
			add("stat", sc)
		}
	}
	if !refs {
		add("frame", ustack.NewFrameDecoder())
	}
	us.Run()
	Settle()
	base, _ := libGoroutines()
	cycles := 2 + r.Intn(3)
	peak := 0
	for cycle := 0; cycle < cycles; cycle++ {
		var eps []ustack.EndPoint
		for k := 0; k < 1+r.Intn(3); k++ {
			ep := ustack.NewEndPoint(fmt.Sprint("e", k), k)
			if !session && k > 0 {
				ep.SetSession(r.Intn(3))
			}
			if r.Intn(3) > 0 {
				ep.SetDataListener(func(ep ustack.EndPoint, d ustack.EndPointData) { send(ep, d.GetConnection(), d.GetData()) })
			}
			us.AddEndPoint(ep)
			eps = append(eps, ep)
		}
		var ends []func()
		msg := func(ses int, b []byte) []byte {
			var p []byte
			for i := len(comp) - 1; i >= 0; i-- {
				switch {
				case strings.HasPrefix(comp[i], "hb"):
					p = append(p, ustack.HeartbeatUplayerMessageTag)
				case strings.HasPrefix(comp[i], "stat"):
					p = append(p, ustack.StatCounterUplayerMessageTag)
				case comp[i] == "session":
					p = append(p, be32(uint32(ses))...)
				}
			}
			return frame(append(p, b...))
		}
		var trs []ustack.Transport
		var peers []ustack.Transport
		for k := r.Intn(3); k > 0; k-- {
			// clients that never find a server
			t := newTransport([]string{"tcp", "unix"}[r.Intn(2)], newAddress("unix"), false)
			t.SetOption("RetryIntervalInSecond", 1+r.Intn(10000)).SetOption("MaxRetryCount", 1+r.Intn(3))
			us.AddTransport(t)
			trs = append(trs, t)
		}
		var conns []*MemConn
		if refs {
			for k := 0; k < 1+r.Intn(3); k++ {
				a := fmt.Sprintf("c25-%s-%d", c.Name, k)
				t := ustack.NewReferenceTransport("a").ForServer(true).SetAddress(a).SetOption("MaxQueueSize", 4)
				p := ustack.NewReferenceTransport("b").ForServer(false).SetAddress(a).SetOption("MaxQueueSize", 4)
				us.AddTransport(t)
				p.Run()
				cn := p.NextConnection()
				for j := 0; j < r.Intn(4); j++ {
					cn.SetReference(j)
				}
				trs, peers = append(trs, t), append(peers, p)
				if r.Intn(2) == 0 {
					ends = append(ends, cn.Close)
				} else if r.Intn(2) == 0 {
					ends = append(ends, func() { p.Stop() })
				}
			}
		} else {
			tr := NewMemTransport("m")
			us.AddTransport(tr)
			trs = append(trs, tr)
			for k := 0; k < r.Intn(6); k++ {
				cn := NewMemConn("c")
				conns = append(conns, cn)
				var blocked atomic.Bool
				var failing atomic.Bool
				cn.OnWrite = func(p []byte) (int, error) {
					if blocked.Load() {
						<-cn.closed
						return 0, errMemClosed
					}
					if failing.Load() {
						return 0, errors.New("write failed")
					}
					return len(p), nil
				}
				tr.Push(cn)
				// traffic, sometimes more than the endpoint takes
				n := r.Intn(5)
				if r.Intn(6) == 0 {
					n = 1200
				}
				for j := 0; j < n; j++ {
					cn.FeedBytes(msg(r.Intn(3), []byte("data")))
				}
				how := []string{"close", "eof", "err", "partial", "bad", "hb", "stay", "blocked", "writefail", "inside"}[r.Intn(10)]
				c.Sig(how)
				switch how {
				case "close":
					ends = append(ends, cn.Close)
				case "eof":
					ends = append(ends, func() { cn.Feed(Seg{Err: io.EOF}) })
				case "err":
					ends = append(ends, func() { cn.Feed(Seg{Err: errors.New("reset")}) })
				case "partial":
					ends = append(ends, func() { cn.Feed(Seg{Data: []byte{0, 0}}, Seg{Data: []byte{0, 9, 1}, Err: io.EOF}) })
				case "bad":
					ends = append(ends, func() { cn.FeedBytes([]byte{0xff, 0xff, 0xff, 0xff, 1}) })
				case "hb":
					if hbOn {
						ends = append(ends, func() { time.Sleep(time.Duration(timeout+2) * time.Second) })
					}
				case "blocked":
					blocked.Store(true)
					if r.Intn(2) == 0 {
						ends = append(ends, cn.Close)
					}
				case "writefail":
					failing.Store(true)
					ends = append(ends, func() {
						if len(eps[0].GetTxChannel()) < 500 {
							send(eps[0], cn, []byte("x"))
						}
					})
				case "inside":
					us.SetEventListener(func(e ustack.Event) {
						if e.Type == ustack.UStackEventNewConnection && e.Data == interface{}(cn) {
							cn.Close()
						}
					})
				}
			}
		}
		if r.Intn(2) == 0 {
			Settle()
		}
		if n, _ := libGoroutines(); n > peak {
			peak = n
		}
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
		}
		// everything ends, in any order
		for _, t := range trs {
			ends = append(ends, func() { us.DeleteTransport(t) })
		}
		for _, p := range peers {
			ends = append(ends, func() { p.Stop() })
		}
		for _, ep := range eps {
			ends = append(ends, func() {
				if r.Intn(2) == 0 {
					ep.SetDataListener(nil)
					us.DeleteEndPoint(ep)
				} else {
					us.DeleteEndPoint(ep)
					ep.SetDataListener(nil)
				}
			})
		}
		for _, k := range r.Perm(len(ends)) {
			ends[k]()
			if r.Intn(3) == 0 {
				Settle()
			}
		}
		Settle()
		for _, cn := range conns {
			if !cn.Closed() {
				c.Fail("a connection of a removed transport is open")
			}
		}
		// a listener that sends on its own full endpoint is stuck by itself: let it go
		for _, ep := range eps {
			for len(ep.GetTxChannel()) > 0 {
				<-ep.GetTxChannel()
				Settle()
			}
		}
		time.Sleep(wait + 1100*time.Millisecond)
		Settle()
		if n, kinds := libGoroutines(); n != base {
			c.Fail("%d goroutines of the library are left after everything was removed (cycle %d), %d before: %s [%s]", n, cycle, base, kinds, strings.Join(comp, " "))
		}
		h.Count("connections", int64(len(conns)+len(peers)))
		h.Count("cycles", 1)
	}
	h.Max("max_goroutines_seen", int64(peak))
	c.Sig(strings.Join(comp, " "), cycles, peak)
	c.Logf("[%s] %d cycles, up to %d goroutines, %d at the end", strings.Join(comp, " "), cycles, peak, base)
}

func TestC25sock(t *testing.T) {
	Plain(t, "C25sock", func(h *H) {
		for i := 0; i < h.N(8, 60); i++ {
			h.Case(fmt.Sprintf("sock-%d", i), func(c *C) { c25sock(h, c) })
			if i < 4 || i%3 == 0 {
				h.Case(fmt.Sprintf("keep-%d", i), func(c *C) { c25keepSock(h, c, []string{"tcp", "unix"}[i%2]) })
			}
		}
	})
}

// back waits for goroutines and sockets to return to the counts before.
func back(c *C, what string, goroutines, socks int) {
	for k := 0; ; k++ {
		n, kinds := libGoroutines()
		s := sockets()
		if n == goroutines && s == socks {
			return
		}
		if k > 600 {
			c.Fail("%s: after 30 s %d goroutines of the library (%d before) and %d sockets (%d before) are left: %s", what, n, goroutines, s, socks, kinds)
		}
		time.Sleep(50 * time.Millisecond)
		c.Tick()
	}
}

// c25sock: cycles on real sockets.
func c25sock(h *H, c *C) {
	r := c.R
	mk := func() (ustack.UStack, ustack.EndPoint) {
		us := ustack.NewUStack()
		us.AppendDataProcessor(ustack.NewBytesCodec())
		if r.Intn(2) == 0 {
			us.AppendDataProcessor(ustack.NewHeartbeat().SetOption("TimeoutInSecond", 30))
		}
		if r.Intn(2) == 0 {
			us.AppendDataProcessor(ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", 1))
		}
		us.AppendDataProcessor(ustack.NewFrameDecoder())
		return us, ustack.NewEndPoint("e", 0)
	}
	srv, sep := mk()
	srv.Run()
	// warm-up: the poller and the resolver open descriptors of their own
	if l, err := net.Listen("tcp", "127.0.0.1:0"); err == nil {
		l.Close()
	}
	runtime.Gosched()
	g0, _ := libGoroutines()
	s0 := sockets()
	cycles := 2 + r.Intn(2)
	total := 0
	for cycle := 0; cycle < cycles; cycle++ {
		kind := []string{"tcp", "unix"}[r.Intn(2)]
		addr := newAddress(kind)
		echo := r.Intn(2) == 0
		if echo {
			sep.SetDataListener(func(ep ustack.EndPoint, d ustack.EndPointData) { send(ep, d.GetConnection(), d.GetData()) })
		}
		srv.AddEndPoint(sep)
		tr := newTransport(kind, addr, true)
		srv.AddTransport(tr)
		if r.Intn(4) == 0 {
			srv.DeleteTransport(tr)
			srv.AddTransport(tr)
		}
		n := r.Intn(20)
		var wg sync.WaitGroup
		var keep Bag[net.Conn]
		modes := make([]int, n)
		for k := range modes {
			modes[k] = r.Intn(6)
		}
		for k := 0; k < n; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				raw, err := net.DialTimeout(kind, addr, 10*time.Second)
				for j := 0; err != nil && j < 3000; j++ {
					time.Sleep(10 * time.Millisecond)
					raw, err = net.DialTimeout(kind, addr, 10*time.Second)
				}
				if err != nil {
					return
				}
				switch modes[k] {
				case 0:
					raw.Close()
				case 1:
					raw.Write([]byte{0xff, 0xff, 0xff, 0xff})
					io.Copy(io.Discard, raw)
					raw.Close()
				case 2:
					raw.Write([]byte{0, 0, 0, 9, 1, 2})
					raw.Close()
				case 3:
					if tc, ok := raw.(*net.TCPConn); ok {
						tc.SetLinger(0)
					}
					raw.Write([]byte{0, 0})
					raw.Close()
				default:
					keep.Add(raw)
				}
			}()
		}
		// client transports of another kind of use: started, stopped, given up
		dead := newTransport(kind, newAddress(kind), false)
		dead.SetOption("RetryIntervalInSecond", 1).SetOption("MaxRetryCount", 1+r.Intn(2))
		dead.Run()
		live := newTransport(kind, addr, false)
		live.Run()
		spin(r, 200)
		if r.Intn(2) == 0 {
			live.Stop()
		}
		wg.Wait()
		if r.Intn(2) == 0 {
			time.Sleep(time.Duration(r.Intn(20)) * time.Millisecond)
		}
		steps := []func(){
			func() { srv.DeleteTransport(tr) },
			func() { srv.DeleteEndPoint(sep) },
			func() { live.Stop() },
			func() { dead.Stop() },
			func() { sep.SetDataListener(nil) },
			func() {
				for k, raw := range keep.All() {
					if k%2 == 0 {
						raw.Close()
					}
				}
			},
		}
		for _, k := range r.Perm(len(steps)) {
			steps[k]()
		}
		for _, raw := range keep.All() {
			raw.Close()
		}
		for len(sep.GetRxChannel()) > 0 {
			<-sep.GetRxChannel()
		}
		back(c, kind, g0, s0)
		total += n
		h.Count("cycles", 1)
		c.Sig(kind, n, echo)
	}
	h.Count("connections", int64(total))
	c.Logf("%d cycles, %d connections, %d library goroutines and %d sockets before and after", cycles, total, g0, s0)
}
