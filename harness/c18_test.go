package harness

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"ustack"
)

// The peer of these checks is the harness: it reads and writes frames
// [length][session][number] on MemConns of one stack.

func wireMsg(session, n int) []byte {
	return frame(append(be32(uint32(session)), be32(uint32(n))...))
}

// wireRead returns the (session, number) pairs written on a connection.
func wireRead(c *C, cn *MemConn) [][2]int {
	var all []byte
	for _, b := range cn.Writes.Take() {
		all = append(all, b...)
	}
	var l [][2]int
	for len(all) >= 12 {
		l = append(l, [2]int{int(binary.BigEndian.Uint32(all[4:])), int(binary.BigEndian.Uint32(all[8:]))})
		all = all[12:]
	}
	if len(all) != 0 {
		c.Fail("%d stray bytes on the wire", len(all))
	}
	return l
}

type dynEp struct {
	ep      ustack.EndPoint
	session int
	added   bool
	shadow  bool         // another one has its session
	late    map[int]bool // queued while removed: may be sent after it is added again
	rx      int
}

func TestC18(t *testing.T) {
	Bubble(t, "C18", func(h *H) {
		n := h.N(300, 3000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { c18(h, c) })
			if i%10 == 0 {
				h.Case(fmt.Sprintf("move-%d", i), func(c *C) { c18move(h, c) })
				h.Case(fmt.Sprintf("slow-%d", i), func(c *C) { c18slow(h, c) })
			}
			if i%50 == 0 {
				h.Case(fmt.Sprintf("many-%d", i), func(c *C) { c18many(h, c) })
			}
		}
	})
}

func c18(h *H, c *C) {
	r := c.R
	us := ustack.NewUStack().SetOption("MTU", 128)
	us.AppendDataProcessor(ustack.NewBytesCodec())
	us.AppendDataProcessor(ustack.NewSessionResolver())
	us.AppendDataProcessor(ustack.NewFrameDecoder())
	tr := NewMemTransport("mem")
	us.AddTransport(tr)
	var conns []*MemConn
	for k := 1 + r.Intn(3); k > 0; k-- {
		cn := NewMemConn("x")
		conns = append(conns, cn)
	}
	var eps []*dynEp
	for k := 1 + r.Intn(6); k > 0; k-- {
		eps = append(eps, &dynEp{ep: ustack.NewEndPoint("e", k), session: k, late: map[int]bool{}})
	}
	// a listener that acts on events, once per order
	var mu sync.Mutex
	var onAdded, onDeleted map[ustack.EndPoint]func()
	onAdded, onDeleted = map[ustack.EndPoint]func(){}, map[ustack.EndPoint]func(){}
	us.SetEventListener(func(e ustack.Event) {
		ep, ok := e.Data.(ustack.EndPoint)
		if !ok {
			return
		}
		var f func()
		mu.Lock()
		if e.Type == ustack.UStackEventEndpointAdded {
			f = onAdded[ep]
			delete(onAdded, ep)
		} else if e.Type == ustack.UStackEventEndpointDeleted {
			f = onDeleted[ep]
			delete(onDeleted, ep)
		}
		mu.Unlock()
		if f != nil {
			f()
		}
	})
	for _, x := range eps {
		if r.Intn(2) == 0 {
			us.AddEndPoint(x.ep)
			x.added = true
		}
	}
	us.Run()
	for _, cn := range conns {
		tr.Push(cn)
	}
	Settle()
	num := 0
	steps := 20 + r.Intn(80)
	acts := 0
	recv := func(x *dynEp) []int {
		var l []int
		for _, d := range drain(x.ep) {
			b, ok := d.GetData().([]byte)
			if !ok || len(b) != 4 {
				c.Fail("session %d: got a message of another form: %v", x.session, d.GetData())
			}
			l = append(l, int(binary.BigEndian.Uint32(b)))
		}
		return l
	}
	// wire compares what was written on all connections since last time
	wire := func(what string, must [][2]int, may map[int]bool) {
		Settle()
		var got [][2]int
		for _, cn := range conns {
			got = append(got, wireRead(c, cn)...)
		}
		seen := map[int]bool{}
		for _, g := range got {
			if seen[g[1]] {
				c.Fail("%s: message %d was sent twice", what, g[1])
			}
			seen[g[1]] = true
			ok := may[g[1]]
			for _, m := range must {
				ok = ok || m == g
			}
			if !ok {
				c.Fail("%s: message %d of session %d was sent, must not be", what, g[1], g[0])
			}
			delete(may, g[1])
		}
		for _, m := range must {
			if !seen[m[1]] {
				c.Fail("%s: message %d of session %d was not sent", what, m[1], m[0])
			}
		}
		h.Count("messages_on_wire", int64(len(got)))
	}
	add := func(x *dynEp) {
		us.AddEndPoint(x.ep)
		x.added = true
	}
	for s := 0; s < steps; s++ {
		x := eps[r.Intn(len(eps))]
		cn := conns[r.Intn(len(conns))]
		switch k := r.Intn(12); {
		case k == 0 || k == 1:
			if x.added {
				c.Logf("remove %d", x.session)
				us.DeleteEndPoint(x.ep)
				x.added = false
			} else {
				c.Logf("add %d", x.session)
				add(x)
				if len(x.late) > 0 {
					wire("after adding again", nil, x.late)
					x.late = map[int]bool{}
				}
			}
			acts++
		case k == 2:
			// remove and add, no pause
			if x.added {
				c.Logf("remove+add %d", x.session)
				us.DeleteEndPoint(x.ep)
				us.AddEndPoint(x.ep)
				if r.Intn(2) == 0 {
					us.DeleteEndPoint(x.ep)
					us.AddEndPoint(x.ep)
				}
				acts++
			}
		case k == 3:
			// through listeners
			if x.added {
				c.Logf("remove %d, a listener adds it again", x.session)
				mu.Lock()
				onDeleted[x.ep] = func() { us.AddEndPoint(x.ep) }
				mu.Unlock()
				us.DeleteEndPoint(x.ep)
			} else {
				c.Logf("add %d, a listener removes it", x.session)
				mu.Lock()
				onAdded[x.ep] = func() { us.DeleteEndPoint(x.ep) }
				mu.Unlock()
				us.AddEndPoint(x.ep)
				wire("added and removed by a listener", nil, x.late)
			}
			acts++
		case k == 4:
			// redundant calls
			if x.added {
				us.AddEndPoint(x.ep)
			} else {
				us.DeleteEndPoint(x.ep)
			}
			c.Logf("redundant call %d", x.session)
		case k <= 7:
			// sending on every state
			var must [][2]int
			may := map[int]bool{}
			for _, y := range eps {
				for m := r.Intn(4); m > 0; m-- {
					num++
					b := be32(uint32(num))
					if y.added {
						must = append(must, [2]int{y.session, num})
						send(y.ep, cn, b)
					} else if len(y.late) < 300 {
						y.late[num] = true
						send(y.ep, cn, b)
					}
				}
			}
			c.Logf("send %d", len(must))
			wire("sending", must, may)
		case k <= 10:
			// receiving in every state
			var seq [][2]int
			for m := r.Intn(10); m > 0; m-- {
				y := eps[r.Intn(len(eps))]
				num++
				seq = append(seq, [2]int{y.session, num})
				cn.FeedBytes(wireMsg(y.session, num))
			}
			c.Logf("receive %v", seq)
			for _, y := range eps {
				var want []int
				for _, m := range seq {
					if m[0] == y.session && y.added {
						want = append(want, m[1])
					}
				}
				got := recv(y)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					c.Fail("session %d (added: %v) received %v, want %v", y.session, y.added, got, want)
				}
				h.Count("messages_delivered", int64(len(got)))
			}
		case k == 11:
			switch r.Intn(3) {
			case 0:
				// another endpoint with the same session comes and goes
				if !x.added {
					break
				}
				c.Logf("second endpoint with session %d", x.session)
				y := ustack.NewEndPoint("second", x.session)
				us.AddEndPoint(y)
				num++
				cn.FeedBytes(wireMsg(x.session, num))
				if got := recv(x); len(got) != 1 || got[0] != num {
					c.Fail("session %d: another endpoint with its session was added, received %v, want [%d]", x.session, got, num)
				}
				us.DeleteEndPoint(y)
				Settle()
				if len(y.GetRxChannel()) != 0 {
					c.Fail("session %d: a second endpoint with the session received", x.session)
				}
				num++
				cn.FeedBytes(wireMsg(x.session, num))
				num++
				send(x.ep, cn, be32(uint32(num)))
				if got := recv(x); len(got) != 1 || got[0] != num-1 {
					c.Fail("session %d: another endpoint with its session was removed, received %v, want [%d]", x.session, got, num-1)
				}
				wire("a second endpoint with the session was removed", [][2]int{{x.session, num}}, nil)
			case 1:
				// its receive queue is full and the connection's reader waits: remove it
				if !x.added {
					break
				}
				c.Logf("full receive queue of %d", x.session)
				for m := 0; m < 520; m++ {
					cn.FeedBytes(wireMsg(x.session, 0))
				}
				var seq [][2]int
				for m := 1 + r.Intn(5); m > 0; m-- {
					y := eps[r.Intn(len(eps))]
					if y != x {
						num++
						seq = append(seq, [2]int{y.session, num})
						cn.FeedBytes(wireMsg(y.session, num))
					}
				}
				Settle()
				us.DeleteEndPoint(x.ep)
				x.added = false
				Settle()
				if cn.Pending() != 0 {
					c.Fail("session %d was removed with a full receive queue: its connection is still stuck", x.session)
				}
				for _, y := range eps {
					if y == x {
						continue
					}
					var want []int
					for _, m := range seq {
						if m[0] == y.session && y.added {
							want = append(want, m[1])
						}
					}
					if got := recv(y); fmt.Sprint(got) != fmt.Sprint(want) {
						c.Fail("session %d (added: %v) received %v behind a removed full endpoint, want %v", y.session, y.added, got, want)
					}
				}
				recv(x)
			case 2:
				// removed while a write of its is stuck, with a backlog
				if !x.added {
					break
				}
				c.Logf("remove %d while sending", x.session)
				cn := NewMemConn("stuck")
				release := make(chan struct{})
				var hold atomic.Bool
				hold.Store(true)
				cn.OnWrite = func(p []byte) (int, error) {
					if hold.Load() {
						<-release
					}
					cn.Writes.Add(p)
					return len(p), nil
				}
				tr.Push(cn)
				Settle()
				first := num + 1
				for m := 0; m < 5; m++ {
					num++
					send(x.ep, cn, be32(uint32(num)))
				}
				Settle()
				us.DeleteEndPoint(x.ep)
				x.added = false
				lastBefore := num
				for m := 0; m < 3; m++ {
					num++
					x.late[num] = true
					send(x.ep, cn, be32(uint32(num)))
				}
				hold.Store(false)
				close(release)
				Settle()
				prev := first - 1
				for _, g := range wireRead(c, cn) {
					if g[1] > lastBefore {
						c.Fail("session %d: message queued after the removal was sent", x.session)
					}
					if g[1] <= prev {
						c.Fail("session %d: message %d sent after %d", x.session, g[1], prev)
					}
					prev = g[1]
				}
				for m := first; m <= lastBefore; m++ {
					x.late[m] = true
				}
				cn.Close()
				// the backlog is not of interest any more
			fl:
				for {
					select {
					case <-x.ep.GetTxChannel():
					default:
						break fl
					}
				}
				x.late = map[int]bool{}
			}
			acts++
		}
		if r.Intn(2) == 0 {
			Settle()
		}
	}
	wire("end", nil, nil)
	c.Sig(len(eps), len(conns), steps, acts, num)
	us.DeleteTransport(tr)
	for _, x := range eps {
		us.DeleteEndPoint(x.ep)
	}
	Settle()
}

// churn: endpoints come and go in goroutines while others carry numbered traffic
func TestC18conc(t *testing.T) {
	Bubble(t, "C18conc", func(h *H) {
		n := h.N(40, 300)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { c18conc(h, c) })
		}
	})
}

func c18conc(h *H, c *C) {
	r := c.R
	// S echoes: for every session an endpoint that returns what it gets
	mkProcs := func() []ustack.DataProcessor {
		return []ustack.DataProcessor{ustack.NewBytesCodec(), ustack.NewSessionResolver(), ustack.NewFrameDecoder()}
	}
	var seps []ustack.EndPoint
	for k := 0; k < 8; k++ {
		e := ustack.NewEndPoint("s", k)
		e.SetDataListener(func(e ustack.EndPoint, d ustack.EndPointData) { send(e, d.GetConnection(), d.GetData()) })
		seps = append(seps, e)
	}
	S := NewNode(128, mkProcs(), seps...)
	N := NewNode(128, mkProcs())
	var conns []*MemConn
	for k := 1 + r.Intn(3); k > 0; k-- {
		a, b := Pair("a", "b", cutter(r.Int63(), 64), cutter(r.Int63(), 64))
		S.Tr.Push(b)
		N.Tr.Push(a)
		conns = append(conns, a)
	}
	Settle()
	var wg sync.WaitGroup
	rounds := 30 + r.Intn(50)
	churners := 1 + r.Intn(5)
	var exchanged int64
	for k := 0; k < churners+2; k++ {
		steady := k < 2
		rr := rand.New(rand.NewSource(r.Int63()))
		sub := c.Sub()
		ep := ustack.NewEndPoint("c", k)
		if steady {
			N.US.AddEndPoint(ep)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			num := uint32(0)
			for round := 0; round < rounds; round++ {
				if !steady {
					N.US.AddEndPoint(ep)
				}
				cn := conns[rr.Intn(len(conns))]
				n := 1 + rr.Intn(6)
				for m := 0; m < n; m++ {
					send(ep, cn, be32(num+uint32(m)))
				}
				for m := 0; m < n; m++ {
					var d ustack.EndPointData
					select {
					case d = <-ep.GetRxChannel():
					case <-time.After(time.Hour):
						sub.Fail("session %d (steady: %v) round %d: message %d of %d did not come back", k, steady, round, m, n)
					}
					b, _ := d.GetData().([]byte)
					if len(b) != 4 || binary.BigEndian.Uint32(b) != num+uint32(m) {
						sub.Fail("session %d (steady: %v) round %d: %x came back where %d was due", k, steady, round, b, num+uint32(m))
					}
				}
				num += uint32(n)
				atomic.AddInt64(&exchanged, int64(n))
				if !steady {
					if rr.Intn(3) == 0 {
						// leave something behind
						num++
						send(ep, cn, be32(num-1))
					}
					N.US.DeleteEndPoint(ep)
					// a late echo of the one left behind may have come in before the removal
					for k := 0; ; k++ {
						select {
						case <-ep.GetTxChannel():
							continue
						case <-ep.GetRxChannel():
							continue
						default:
						}
						if k > 3 {
							break
						}
						time.Sleep(time.Millisecond)
					}
				}
			}
			if !steady {
				N.US.DeleteEndPoint(ep)
			}
		}()
	}
	wg.Wait()
	Settle()
	h.Count("messages_exchanged", exchanged)
	c.Sig(churners, rounds, len(conns), exchanged)
	c.Logf("churners=%d rounds=%d connections=%d exchanged=%d", churners, rounds, len(conns), exchanged)
	S.Shut()
	N.Shut()
	for _, e := range seps {
		e.SetDataListener(nil)
	}
	Settle()
}

// endpoints that move between two stacks without a pause
func c18move(h *H, c *C) {
	r := c.R
	type st struct {
		n  *Node
		cn *MemConn
	}
	var ss [2]st
	for k := range ss {
		ss[k].n = NewNode(128, []ustack.DataProcessor{ustack.NewBytesCodec(), ustack.NewSessionResolver(), ustack.NewFrameDecoder()})
		ss[k].cn = NewMemConn("x")
		ss[k].n.Tr.Push(ss[k].cn)
	}
	Settle()
	ep := ustack.NewEndPoint("mover", 3)
	at := 0
	ss[at].n.US.AddEndPoint(ep)
	num := 0
	var want [2][][2]int
	for k := 60 + r.Intn(60); k > 0; k-- {
		for m := 1 + r.Intn(3); m > 0; m-- {
			num++
			want[at] = append(want[at], [2]int{3, num})
			send(ep, ss[at].cn, be32(uint32(num)))
		}
		// what was queued before it left need not be sent
		if r.Intn(3) > 0 {
			Settle()
		} else {
			for len(ep.GetTxChannel()) > 0 {
				time.Sleep(time.Millisecond)
			}
			Settle()
		}
		for i := 1 + r.Intn(3); i > 0; i-- {
			ss[at].n.US.DeleteEndPoint(ep)
			if r.Intn(3) == 0 {
				at = 1 - at
			}
			ss[at].n.US.AddEndPoint(ep)
		}
	}
	Settle()
	for k := range ss {
		got := wireRead(c, ss[k].cn)
		if fmt.Sprint(got) != fmt.Sprint(want[k]) {
			c.Fail("stack %d sent %v for an endpoint that moved between stacks, want %v", k, got, want[k])
		}
		h.Count("messages_on_wire", int64(len(got)))
	}
	c.Sig(num, "move")
	c.Logf("moved, %d messages", num)
	ss[0].n.Shut()
	ss[1].n.Shut()
	Settle()
}

// c18many: many endpoints, added before and after the stack runs, all of them served
func c18many(h *H, c *C) {
	r := c.R
	us := ustack.NewUStack().SetOption("MTU", 128)
	us.AppendDataProcessor(ustack.NewBytesCodec())
	us.AppendDataProcessor(ustack.NewSessionResolver())
	us.AppendDataProcessor(ustack.NewFrameDecoder())
	tr := NewMemTransport("mem")
	us.AddTransport(tr)
	cn := NewMemConn("x")
	tr.Push(cn)
	n := 100 + r.Intn(300)
	before := []int{0, n, r.Intn(n)}[r.Intn(3)]
	var eps []ustack.EndPoint
	present := map[int]bool{}
	for k := 0; k < n; k++ {
		if k == before {
			us.Run()
		}
		ep := ustack.NewEndPoint("e", k)
		eps = append(eps, ep)
		us.AddEndPoint(ep)
		present[k] = true
	}
	if before == n {
		us.Run()
	}
	Settle()
	num := 0
	for round := 0; round < 3; round++ {
		want := map[[2]int]bool{}
		sent := map[int]int{}
		for _, k := range r.Perm(n) {
			if !present[k] {
				continue
			}
			num++
			want[[2]int{k, num}] = true
			send(eps[k], cn, be32(uint32(num)))
			num++
			sent[k] = num
			cn.FeedBytes(wireMsg(k, num))
		}
		Settle()
		got := wireRead(c, cn)
		for _, g := range got {
			if !want[g] {
				c.Fail("message %d of session %d was sent, or sent twice", g[1], g[0])
			}
			delete(want, g)
		}
		for w := range want {
			c.Fail("%d endpoints, %d before the stack ran: message %d of session %d was not sent", n, before, w[1], w[0])
		}
		for k, ep := range eps {
			l := []string{}
			for len(ep.GetRxChannel()) > 0 {
				d := <-ep.GetRxChannel()
				l = append(l, fmt.Sprintf("%x", d.GetData()))
			}
			w := []string{}
			if present[k] {
				w = append(w, fmt.Sprintf("%x", be32(uint32(sent[k]))))
			}
			if fmt.Sprint(l) != fmt.Sprint(w) {
				c.Fail("%d endpoints, %d before the stack ran: session %d (added: %v) received %v, want %v", n, before, k, present[k], l, w)
			}
		}
		h.Count("messages_on_wire", int64(len(got)))
		h.Count("messages_delivered", int64(len(sent)))
		// some come, some go
		for k := range eps {
			if r.Intn(3) == 0 {
				if present[k] {
					us.DeleteEndPoint(eps[k])
				} else {
					us.AddEndPoint(eps[k])
				}
				present[k] = !present[k]
			}
		}
		Settle()
	}
	c.Logf("%d endpoints, %d before the stack ran", n, before)
	c.Sig(n, before)
	us.DeleteTransport(tr)
	for _, ep := range eps {
		us.DeleteEndPoint(ep)
	}
	Settle()
}

// slowProc takes its time over every message sent.
type slowProc struct {
	ustack.ProcBase
	upper, lower ustack.DataProcessor
	r            *rand.Rand
	mu           sync.Mutex
}

func (p *slowProc) SetUpper(x ustack.DataProcessor) ustack.DataProcessor { p.upper = x; return p }
func (p *slowProc) SetLower(x ustack.DataProcessor) ustack.DataProcessor { p.lower = x; return p }
func (p *slowProc) OnLowerData(x ustack.Context)                         { p.upper.OnLowerData(x) }
func (p *slowProc) OnUpperData(x ustack.Context) {
	p.mu.Lock()
	d := time.Duration(p.r.Intn(4)*p.r.Intn(100)) * time.Millisecond
	p.mu.Unlock()
	time.Sleep(d)
	p.lower.OnUpperData(x)
}

// c18slow: an endpoint is removed and added again while its messages are on the way.
func c18slow(h *H, c *C) {
	r := c.R
	p := &slowProc{ProcBase: ustack.NewProcBaseInstance("slow"), r: rand.New(rand.NewSource(r.Int63()))}
	p.SetWhere(p)
	n := NewNode(128, []ustack.DataProcessor{ustack.NewBytesCodec(), p, ustack.NewSessionResolver(), ustack.NewFrameDecoder()})
	cn := NewMemConn("x")
	n.Tr.Push(cn)
	Settle()
	ep := ustack.NewEndPoint("again", 3)
	num, first := 0, 0
	for k := 5 + r.Intn(30); k > 0; k-- {
		n.US.AddEndPoint(ep)
		first = num + 1
		for m := 1 + r.Intn(4); m > 0; m-- {
			num++
			send(ep, cn, be32(uint32(num)))
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(60)) * time.Millisecond)
			}
		}
		if k > 1 {
			n.US.DeleteEndPoint(ep)
		}
	}
	time.Sleep(time.Hour)
	Settle()
	got := wireRead(c, cn)
	last := 0
	for _, g := range got {
		if g[1] <= last {
			c.Fail("an endpoint added again while a message was on the way: message %d was sent after %d", g[1], last)
		}
		if g[1] > last+1 && g[1] > first {
			c.Fail("an endpoint added again while a message was on the way: messages between %d and %d were not sent", last, g[1])
		}
		last = g[1]
	}
	if last != num {
		c.Fail("an endpoint added again while a message was on the way: message %d was not sent", num)
	}
	h.Count("messages_on_wire", int64(len(got)))
	c.Sig(num, len(got), "slow")
	n.Shut()
	Settle()
}
