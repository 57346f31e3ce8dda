package harness

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"ustack"
)

// spin passes a random short time without sleeping.
func spin(r *rand.Rand, max int) {
	if max <= 0 {
		return
	}
	for k := r.Intn(max); k > 0; k-- {
		runtime.Gosched()
	}
}

// released checks that nothing of the transport holds the address, now and for a moment.
func released(c *C, kind, addr string, hold time.Duration) {
	if kind == "unix" {
		if _, err := os.Lstat(addr); err == nil {
			c.Fail("%s: the socket file exists after the stop", kind)
		}
	}
	l, err := net.Listen(kind, addr)
	if err != nil {
		c.Fail("%s: the address is not free after the stop: %v", kind, err)
	}
	var before os.FileInfo
	if kind == "unix" {
		before, _ = os.Lstat(addr)
	}
	time.Sleep(hold)
	if kind == "unix" {
		after, err := os.Lstat(addr)
		if err != nil || !os.SameFile(before, after) {
			c.Fail("unix: the stopped transport replaced the socket file of another listener")
		}
	}
	l.Close()
}

// ended checks that the peer closed a raw connection.
func ended(c *C, what string, raw net.Conn) {
	raw.SetReadDeadline(time.Now().Add(30 * time.Second))
	_, err := io.Copy(io.Discard, raw)
	if e, ok := err.(net.Error); ok && e.Timeout() {
		c.Fail("%s: a connection is still open 30 s after the stop", what)
	}
	raw.Close()
}

func TestC19(t *testing.T) {
	Plain(t, "C19", func(h *H) {
		for i := 0; i < h.N(4, 30); i++ {
			h.Case(fmt.Sprintf("many-%d", i), func(c *C) { c19many(h, c, []string{"tcp", "unix"}[i%2]) })
		}
		n := h.N(50, 500)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("server-%d", i), func(c *C) { c19server(h, c, []string{"tcp", "unix"}[i%2]) })
			if i%2 == 0 {
				h.Case(fmt.Sprintf("flip-%d", i), func(c *C) { c19flip(h, c, []string{"tcp", "unix"}[i/2%2]) })
			}
			if i%2 == 1 {
				h.Case(fmt.Sprintf("reenter-%d", i), func(c *C) { c19reenter(h, c, []string{"tcp", "unix"}[i/2%2]) })
			}
			if i%5 == 0 {
				h.Case(fmt.Sprintf("stack-%d", i), func(c *C) { c19stack(h, c, []string{"tcp", "unix"}[(i/5)%2]) })
			}
		}
	})
}

func c19server(h *H, c *C, kind string) {
	r := c.R
	addr := otherAddress(c.R, kind, false)
	tr := newTransport(kind, addr, true)
	tr.SetOption("mine", c).SetOption("MaxRetryCount", 77)
	name := tr.GetName()
	defer func() {
		if tr.GetOption("mine") != c || tr.GetOption("MaxRetryCount") != 77 || tr.GetAddress() != addr || tr.GetName() != name {
			c.Fail("%s: after %d runs the transport has lost its configuration", kind, c.sigN)
		}
	}()
	if r.Intn(3) == 0 {
		tr.Stop()
	}
	rounds := 2 + r.Intn(5)
	for round := 0; round < rounds; round++ {
		mode := r.Intn(4)
		dialers, consumer := 0, true
		switch mode {
		case 1:
			dialers = 1 + r.Intn(6)
		case 2:
			dialers, consumer = 3, false
		case 3:
			dialers = 1 + r.Intn(4)
		}
		c.Logf("%s round %d mode %d dialers=%d consumer=%v", kind, round, mode, dialers, consumer)
		c.Sig(kind, mode, dialers)
		tr.Run()
		if r.Intn(4) == 0 {
			tr.Run()
		}
		var got Bag[ustack.TransportConnection]
		var cg sync.WaitGroup
		consumers := 1 + r.Intn(2)
		if consumer {
			for k := 0; k < consumers; k++ {
				cg.Add(1)
				go func() {
					defer cg.Done()
					for {
						cn := tr.NextConnection()
						if cn == nil {
							return
						}
						got.Add(cn)
					}
				}()
			}
		}
		var dg sync.WaitGroup
		var raws Bag[net.Conn]
		var quit atomic.Bool
		per := 1 + r.Intn(12)
		for k := 0; k < dialers; k++ {
			dg.Add(1)
			go func() {
				defer dg.Done()
				for n := 0; n < per && !quit.Load(); {
					cn, err := net.DialTimeout(kind, addr, 5*time.Second)
					if err == nil {
						raws.Add(cn)
						n++
					} else {
						time.Sleep(200 * time.Microsecond)
					}
				}
			}()
		}
		switch mode {
		case 0:
			spin(r, 200)
		case 1:
			// everything arrived
			dg.Wait()
			want := raws.Len()
			for k := 0; got.Len() < want; k++ {
				if k > 30000 {
					c.Fail("%s: %d of %d clients were accepted within 30 s", kind, got.Len(), want)
				}
				time.Sleep(time.Millisecond)
			}
			// some are over already when the transport is stopped
			for _, cn := range got.All() {
				if r.Intn(3) == 0 {
					cn.Close()
				}
			}
			for _, raw := range raws.All() {
				if r.Intn(6) == 0 {
					raw.Close()
				}
			}
		case 2:
			if r.Intn(2) == 0 {
				dg.Wait()
			} else {
				spin(r, 3000)
			}
		case 3:
			time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
		}
		var sg sync.WaitGroup
		for k := r.Intn(3); k > 0; k-- {
			sg.Add(1)
			go func() { defer sg.Done(); tr.Stop() }()
		}
		tr.Stop()
		// this call returned: the guarantees hold now
		released(c, kind, addr, time.Duration(r.Intn(2500))*time.Microsecond)
		for _, cn := range got.All() {
			if !cn.Closed() {
				c.Fail("%s: a delivered connection is open after the stop", kind)
			}
		}
		sg.Wait()
		if r.Intn(3) == 0 {
			tr.Stop()
		}
		quit.Store(true)
		dg.Wait()
		cg.Wait()
		for _, cn := range got.All() {
			if !cn.Closed() {
				c.Fail("%s: a connection was delivered by a stopped transport", kind)
			}
		}
		if !consumer {
			done := make(chan ustack.TransportConnection, 1)
			go func() { done <- tr.NextConnection() }()
			select {
			case cn := <-done:
				if cn != nil {
					c.Fail("%s: a stopped transport delivers a queued connection", kind)
				}
			case <-time.After(30 * time.Second):
				c.Fail("%s: NextConnection of a stopped transport blocks", kind)
			}
		}
		for _, raw := range raws.All() {
			ended(c, kind, raw)
		}
		h.Count("stops", 1)
		h.Count("connections", int64(raws.Len()))
	}
	// it still serves
	tr.Run()
	raw := dialRaw(c, kind, addr)
	cn := tr.NextConnection()
	if cn == nil {
		c.Fail("%s: the restarted transport delivers no connection", kind)
	}
	raw.Write([]byte("ping"))
	b := make([]byte, 4)
	for n := 0; n < 4; {
		k, err := cn.Read(b[n:])
		if err != nil || k == 0 {
			c.Fail("%s: the restarted transport's connection does not work: %v", kind, err)
		}
		n += k
	}
	if string(b) != "ping" {
		c.Fail("%s: read %q", kind, b)
	}
	tr.Stop()
	released(c, kind, addr, 0)
	ended(c, kind, raw)
}

// c19flip: started again at once after each stop; what the previous run left behind
// must not reach the new one.
func c19flip(h *H, c *C, kind string) {
	r := c.R
	addr := newAddress(kind)
	tr := newTransport(kind, addr, true).Run()
	flips := 10 + r.Intn(30)
	for k := 0; k < flips; k++ {
		var raw net.Conn
		switch r.Intn(3) {
		case 0:
			raw = dialRaw(c, kind, addr)
			if r.Intn(2) == 0 {
				if cn := tr.NextConnection(); cn == nil {
					c.Fail("%s: a running transport delivers no connection (restart %d)", kind, k)
				}
			}
		case 1:
			spin(r, 30)
		}
		c.Guard("restart", func() {
			tr.Stop()
			if r.Intn(3) == 0 {
				spin(r, 5)
			}
			tr.Run()
		})
		if raw != nil {
			ended(c, kind, raw)
		}
		c.Tick()
	}
	raw := dialRaw(c, kind, addr)
	cn := tr.NextConnection()
	if cn == nil {
		c.Fail("%s: after %d quick restarts the transport delivers no connection", kind, flips)
	}
	time.Sleep(time.Duration(r.Intn(3000)) * time.Microsecond)
	if cn.Closed() {
		c.Fail("%s: after %d quick restarts the transport closed its connection by itself", kind, flips)
	}
	raw2 := dialRaw(c, kind, addr)
	if cn := tr.NextConnection(); cn == nil || cn.Closed() {
		c.Fail("%s: after %d quick restarts the transport delivers one connection only", kind, flips)
	}
	tr.Stop()
	released(c, kind, addr, time.Duration(r.Intn(500))*time.Microsecond)
	ended(c, kind, raw)
	ended(c, kind, raw2)

	// a client that is stopped while it gives up by itself
	caddr := newAddress(kind)
	ct := newTransport(kind, caddr, false).SetOption("MaxRetryCount", 1)
	for k := 0; k < 10; k++ {
		ct.Run()
		spin(r, 40)
		c.Guard("restart", func() { ct.Stop() })
		l, err := net.Listen(kind, caddr)
		if err != nil {
			c.Abort("listen: %v", err)
		}
		c.Guard("restart", func() { ct.Run() })
		cn := ct.NextConnection()
		if cn == nil {
			c.Fail("%s: a client started again after a stop delivers no connection (cycle %d)", kind, k)
		}
		peer, err := l.Accept()
		if err != nil {
			c.Abort("accept: %v", err)
		}
		spin(r, 40)
		if cn.Closed() {
			c.Fail("%s: a client started again closed its connection by itself (cycle %d)", kind, k)
		}
		ct.Stop()
		if !cn.Closed() {
			c.Fail("%s: a client's connection is open after the stop", kind)
		}
		ended(c, kind, peer)
		l.Close()
		c.Tick()
	}
	h.Count("stops", int64(flips+20))
	c.Sig(kind, "flip", flips)
	c.Logf("%s %d quick restarts", kind, flips)
}

// echoStack is a stack that returns what it gets.
func echoStack() (ustack.UStack, ustack.EndPoint) {
	us := ustack.NewUStack()
	us.AppendDataProcessor(ustack.NewBytesCodec())
	us.AppendDataProcessor(ustack.NewFrameDecoder())
	ep := ustack.NewEndPoint("e", 0)
	ep.SetDataListener(func(ep ustack.EndPoint, d ustack.EndPointData) { send(ep, d.GetConnection(), d.GetData()) })
	us.AddEndPoint(ep)
	return us, ep
}

// pingPong exchanges one message with an echo stack over a raw connection.
func pingPong(raw net.Conn, payload []byte) error {
	raw.SetDeadline(time.Now().Add(30 * time.Second))
	if _, err := raw.Write(frame(payload)); err != nil {
		return err
	}
	b := make([]byte, 4+len(payload))
	if _, err := io.ReadFull(raw, b); err != nil {
		return err
	}
	if !bytes.Equal(b, frame(payload)) {
		return fmt.Errorf("sent %s, got back %s", short(frame(payload)), short(b))
	}
	return nil
}

func c19stack(h *H, c *C, kind string) {
	r := c.R
	us, ep := echoStack()
	var newC, closedC Bag[ustack.TransportConnection]
	us.SetEventListener(func(e ustack.Event) {
		switch e.Type {
		case ustack.UStackEventNewConnection:
			newC.Add(e.Data.(ustack.TransportConnection))
		case ustack.UStackEventConnectionClosed:
			closedC.Add(e.Data.(ustack.TransportConnection))
		}
	})
	steadyKind := []string{"tcp", "unix"}[r.Intn(2)]
	steadyAddr := newAddress(steadyKind)
	steady := newTransport(steadyKind, steadyAddr, true)
	us.AddTransport(steady)
	addr := newAddress(kind)
	tr := newTransport(kind, addr, true)
	// a client transport of the same stack, towards a listener of the harness
	caddr := newAddress(kind)
	cl, err := net.Listen(kind, caddr)
	if err != nil {
		c.Abort("%v", err)
	}
	ctr := newTransport(kind, caddr, false)
	if r.Intn(2) == 0 {
		us.AddTransport(tr)
	}
	us.Run()
	var quit atomic.Bool
	var wg sync.WaitGroup
	raws := []net.Conn{dialRaw(c, steadyKind, steadyAddr), dialRaw(c, steadyKind, steadyAddr)}
	var pings int64
	for _, raw := range raws {
		rr := rand.New(rand.NewSource(r.Int63()))
		sub := c.Sub()
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !quit.Load() {
				if err := pingPong(raw, randBytes(rr, 1+rr.Intn(200))); err != nil {
					sub.Fail("%s: traffic on another transport was disturbed: %v", kind, err)
				}
				atomic.AddInt64(&pings, 1)
			}
		}()
	}
	rounds := 3 + r.Intn(5)
	stale := 0
	for round := 0; round < rounds; round++ {
		us.AddTransport(tr)
		var mine []net.Conn
		switch r.Intn(3) {
		case 0:
			spin(r, 300)
		case 1:
			for k := 1 + r.Intn(4); k > 0; k-- {
				raw := dialRaw(c, kind, addr)
				if err := pingPong(raw, []byte("hello")); err != nil {
					c.Fail("%s round %d: an added transport does not serve: %v", kind, round, err)
				}
				mine = append(mine, raw)
			}
		case 2:
			for k := 1 + r.Intn(4); k > 0; k-- {
				mine = append(mine, dialRaw(c, kind, addr))
			}
			spin(r, 300)
		}
		if len(mine) > 1 && r.Intn(2) == 0 {
			// one is over already
			mine[0].Close()
			mine = mine[1:]
			if r.Intn(2) == 0 {
				time.Sleep(2 * time.Millisecond)
			}
		}
		us.DeleteTransport(tr)
		if r.Intn(3) == 0 {
			us.DeleteTransport(tr)
		}
		released(c, kind, addr, time.Duration(r.Intn(2000))*time.Microsecond)
		for _, raw := range mine {
			ended(c, kind+" transport removed from a stack", raw)
		}
		h.Count("removals", 1)
		// the client transport
		us.AddTransport(ctr)
		if r.Intn(2) == 0 {
			// a dial of the round before may have been in flight when the transport was
			// removed: such a connection is closed at once, and stands in the queue first
			var raw net.Conn
			for deadline := time.Now().Add(30 * time.Second); ; {
				cl.(interface{ SetDeadline(time.Time) error }).SetDeadline(deadline)
				var err error
				if raw, err = cl.Accept(); err != nil {
					c.Fail("%s round %d: a client transport that was added does not connect: %v", kind, round, err)
				}
				if err = pingPong(raw, []byte("hi")); err == nil {
					break
				}
				raw.Close()
				if stale == 0 {
					c.Fail("%s round %d: client connection: %v", kind, round, err)
				}
				stale--
			}
			us.DeleteTransport(ctr)
			ended(c, kind+" client transport removed from a stack", raw)
		} else {
			spin(r, 200)
			us.DeleteTransport(ctr)
			stale++
			// it may have connected before: whatever is in the backlog must be closed
			m, err := net.DialTimeout(kind, caddr, 5*time.Second)
			if err == nil {
				m.Write([]byte("M"))
				for {
					cl.(interface{ SetDeadline(time.Time) error }).SetDeadline(time.Now().Add(30 * time.Second))
					raw, err := cl.Accept()
					if err != nil {
						c.Abort("%v", err)
					}
					raw.SetReadDeadline(time.Now().Add(30 * time.Second))
					b := make([]byte, 1)
					n, _ := raw.Read(b)
					if n == 1 && b[0] == 'M' {
						raw.Close()
						break
					}
					ended(c, kind+" client transport removed while dialling", raw)
				}
				m.Close()
			}
		}
		c.Tick()
	}
	quit.Store(true)
	wg.Wait()
	for _, raw := range raws {
		if err := pingPong(raw, []byte("last")); err != nil {
			c.Fail("%s: traffic on another transport was disturbed: %v", kind, err)
		}
		raw.Close()
	}
	us.DeleteTransport(steady)
	for k := 0; closedC.Len() < newC.Len(); k++ {
		if k > 30000 {
			c.Fail("%d connections were announced, %d reported closed", newC.Len(), closedC.Len())
		}
		time.Sleep(time.Millisecond)
	}
	cl.Close()
	us.DeleteEndPoint(ep)
	ep.SetDataListener(nil)
	h.Count("pings_beside", pings)
	h.Count("connections", int64(newC.Len()))
	c.Sig("stack", kind, steadyKind, rounds, newC.Len())
	c.Logf("stack %s beside %s rounds=%d connections=%d pings=%d", kind, steadyKind, rounds, newC.Len(), pings)
}

// c19reenter: a transport is removed (and perhaps added again) from inside the event that
// reports its addition.
func c19reenter(h *H, c *C, kind string) {
	r := c.R
	us, ep := echoStack()
	addr := newAddress(kind)
	tr := newTransport(kind, addr, true)
	var again atomic.Int32 // how often the reaction adds it again
	react := func(e ustack.Event) {
		if e.Type == ustack.UStackEventTransportAdded && e.Data == interface{}(tr) {
			us.DeleteTransport(tr)
			if again.Add(-1) >= 0 {
				us.AddTransport(tr)
			}
		}
	}
	var back atomic.Int32 // how often its deletion is answered by adding it
	guardBack := func(e ustack.Event) {
		if e.Type == ustack.UStackEventTransportDeleted && e.Data == interface{}(tr) && back.Add(-1) >= 0 {
			us.AddTransport(tr)
		}
	}
	var active atomic.Bool
	guard := func(e ustack.Event) {
		if active.Load() {
			react(e)
		}
		guardBack(e)
	}
	where := r.Intn(4)
	switch where {
	case 0:
		us.SetEventListener(guard)
	case 1:
		f := NewFeat("f")
		f.OnEv = guard
		us.AddFeature(f)
	case 2:
		ep.SetEventListener(func(_ ustack.EndPoint, e ustack.Event) { guard(e) })
	case 3:
		p := NewProbe("p")
		p.OnEv = guard
		us.AppendDataProcessor(p)
	}
	us.Run()
	rounds := 2 + r.Intn(4)
	for k := 0; k < rounds; k++ {
		again.Store(int32(r.Intn(3)))
		c.Logf("%s removed by party %d, added again %d times", kind, where, again.Load())
		active.Store(true)
		us.AddTransport(tr)
		active.Store(false)
		// every addition was followed by a removal
		if n := len(us.GetTransport()); n != 0 {
			c.Fail("%s: %d transports are left after the last removal", kind, n)
		}
		free := false
		for j := 0; j < 3000 && !free; j++ {
			l, err := net.Listen(kind, addr)
			if err == nil {
				l.Close()
				free = true
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		if !free {
			c.Fail("%s: a transport removed from inside the event of its addition still holds its address after 30 s", kind)
		}
		released(c, kind, addr, time.Duration(r.Intn(3000))*time.Microsecond)
		// and it works when it stays
		us.AddTransport(tr)
		raw := dialRaw(c, kind, addr)
		if err := pingPong(raw, []byte("hello")); err != nil {
			c.Fail("%s: the transport does not serve after it was removed and added: %v", kind, err)
		}
		// added again from inside the event of its deletion: it stays
		for j := r.Intn(3); j > 0; j-- {
			back.Store(1)
			us.DeleteTransport(tr)
			back.Store(0)
			if n := len(us.GetTransport()); n != 1 {
				c.Fail("%s: %d transports after the transport was deleted and added again from inside that event", kind, n)
			}
			raw2 := dialRaw(c, kind, addr)
			if err := pingPong(raw2, []byte("again")); err != nil {
				c.Fail("%s: the transport does not serve after it was added again from inside the event of its deletion: %v", kind, err)
			}
			raw2.Close()
			h.Count("reentrant_additions", 1)
		}
		us.DeleteTransport(tr)
		ended(c, kind, raw)
		released(c, kind, addr, 0)
		h.Count("reentrant_removals", 1)
		c.Tick()
	}
	us.DeleteEndPoint(ep)
	ep.SetDataListener(nil)
	c.Sig("reenter", kind, where, rounds)
}

// c19many: hundreds of connections are open, some queued, when the transport is stopped.
func c19many(h *H, c *C, kind string) {
	r := c.R
	addr := newAddress(kind)
	tr := newTransport(kind, addr, true)
	for round := 0; round < 2; round++ {
		tr.Run()
		n := 200 + r.Intn(600)
		left := r.Intn(16)
		var raws []net.Conn
		var cns []ustack.TransportConnection
		for k := 0; k < n; k++ {
			raws = append(raws, dialRaw(c, kind, addr))
			if k < n-left {
				cns = append(cns, next28(c, kind, tr, fmt.Sprintf("client %d", k)))
			}
			if k%64 == 0 {
				c.Tick()
			}
		}
		for k := range cns { // some are over by then
			if r.Intn(10) == 0 {
				cns[k].Close()
			}
		}
		tr.Stop()
		open := 0
		for _, cn := range cns {
			if !cn.Closed() {
				open++
			}
		}
		if open > 0 {
			c.Fail("%s: %d of %d connections are open after the stop", kind, open, len(cns))
		}
		released(c, kind, addr, 0)
		for _, raw := range raws {
			ended(c, kind, raw)
		}
		h.Count("connections", int64(n))
		c.Tick()
	}
	c.Sig("many", kind, r.Int63())
}
