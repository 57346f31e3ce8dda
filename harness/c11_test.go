package harness

import (
	"encoding/binary"
	"fmt"
	"hash/crc32"
	"math/rand"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"ustack"
)

// flowMsg: sender node, sender endpoint, sequence number, crc, filler
func flowMsg(r *rand.Rand, node, ep, seq, size int) []byte {
	if size < 20 {
		size = 20
	}
	b := make([]byte, size)
	r.Read(b[16:])
	binary.BigEndian.PutUint32(b[0:], uint32(node))
	binary.BigEndian.PutUint32(b[4:], uint32(ep))
	binary.BigEndian.PutUint32(b[8:], uint32(seq))
	binary.BigEndian.PutUint32(b[12:], crc32.ChecksumIEEE(b[16:]))
	return b
}

func parseFlow(b []byte) (node, ep, seq int, ok bool) {
	if len(b) < 20 || binary.BigEndian.Uint32(b[12:]) != crc32.ChecksumIEEE(b[16:]) {
		return 0, 0, 0, false
	}
	return int(binary.BigEndian.Uint32(b)), int(binary.BigEndian.Uint32(b[4:])), int(binary.BigEndian.Uint32(b[8:])), true
}

func c11case(c *C, kind string, clients, neps, msgs, minSize, maxSize, mtu int, slow bool, stall time.Duration, extra []string) {
	h := c.H
	names := append([]string{"bytes", "sess"}, extra...)
	names = append(names, "frame")
	addr := newAddress(kind)
	type nodeT struct {
		us    ustack.UStack
		eps   []ustack.EndPoint
		tr    ustack.Transport
		conns chan ustack.TransportConnection
	}
	mk := func(server bool) *nodeT {
		n := &nodeT{us: ustack.NewUStack(), conns: make(chan ustack.TransportConnection, 64)}
		n.us.SetOption("MTU", mtu)
		for _, p := range composition(c, names) {
			n.us.AppendDataProcessor(p)
		}
		for k := 0; k < neps; k++ {
			ep := ustack.NewEndPoint("e", k*1000)
			n.eps = append(n.eps, ep)
			n.us.AddEndPoint(ep)
		}
		n.tr = newTransport(kind, addr, server)
		n.us.AddTransport(n.tr)
		n.us.SetEventListener(func(e ustack.Event) {
			if e.Type == ustack.UStackEventNewConnection {
				n.conns <- e.Data.(ustack.TransportConnection)
			}
		})
		n.us.Run()
		return n
	}
	S := mk(true)
	var cls []*nodeT
	var cconn []ustack.TransportConnection
	var sconn []ustack.TransportConnection
	for k := 0; k < clients; k++ {
		x := mk(false)
		cls = append(cls, x)
		cconn = append(cconn, <-x.conns)
		sconn = append(sconn, <-S.conns)
	}
	var wg sync.WaitGroup
	var delivered int64
	// consumers: check order per (connection, sender endpoint) as messages come
	consume := func(who string, ep ustack.EndPoint, conns []ustack.TransportConnection, self int, r *rand.Rand) {
		defer wg.Done()
		sub := c.Sub()
		next := map[string]int{}
		want := len(conns) * msgs
		for n := 0; n < want; n++ {
			if n == 1 {
				// everything behind this endpoint fills up
				time.Sleep(stall)
			}
			d := <-ep.GetRxChannel()
			b, _ := d.GetData().([]byte)
			node, sep, seq, ok := parseFlow(b)
			if !ok {
				sub.Fail("%s: a message arrived modified: %s", who, short(b))
			}
			found := false
			for _, cn := range conns {
				found = found || cn == d.GetConnection()
			}
			if !found {
				sub.Fail("%s: a message is attributed to an unknown connection", who)
			}
			if sep != self {
				sub.Fail("%s: got a message of session index %d", who, sep)
			}
			k := fmt.Sprintf("%p/%d/%d", d.GetConnection(), node, sep)
			if seq != next[k] {
				sub.Fail("%s: flow %s message %d came where %d was due (%d of %d received)", who, k, seq, next[k], n, want)
			}
			next[k]++
			atomic.AddInt64(&delivered, 1)
			atomic.AddInt64(&h.progress, 1)
			if slow && r.Intn(200) == 0 {
				time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
			}
		}
		select {
		case <-ep.GetRxChannel():
			sub.Fail("%s: a message more than were sent", who)
		default:
		}
	}
	produce := func(ep ustack.EndPoint, conn ustack.TransportConnection, node, idx int, r *rand.Rand) {
		defer wg.Done()
		for k := 0; k < msgs; k++ {
			send(ep, conn, flowMsg(r, node, idx, k, minSize+r.Intn(maxSize)))
			if r.Intn(50) == 0 {
				runtime.Gosched()
			}
		}
	}
	rnd := func() *rand.Rand { return rand.New(rand.NewSource(c.R.Int63())) }
	for k := range S.eps {
		wg.Add(1)
		go consume(fmt.Sprintf("server endpoint %d", k), S.eps[k], sconn, k, rnd())
		for x := range cls {
			wg.Add(1)
			go produce(S.eps[k], sconn[x], 1000+x, k, rnd())
		}
	}
	for x := range cls {
		for k := range cls[x].eps {
			wg.Add(2)
			go consume(fmt.Sprintf("client %d endpoint %d", x, k), cls[x].eps[k], cconn[x:x+1], k, rnd())
			go produce(cls[x].eps[k], cconn[x], x, k, rnd())
		}
	}
	wg.Wait()
	// a sentinel on every flow flushes out anything delivered twice at the end
	for x := range cls {
		for k := range cls[x].eps {
			send(cls[x].eps[k], cconn[x], flowMsg(c.R, x, k, msgs, 20))
			d := <-S.eps[k].GetRxChannel()
			b, _ := d.GetData().([]byte)
			node, _, seq, ok := parseFlow(b)
			if !ok || node != x || seq != msgs {
				c.Fail("after all messages: server endpoint %d got message %d of client %d, expected %d of %d", k, seq, node, msgs, x)
			}
			send(S.eps[k], sconn[x], flowMsg(c.R, 1000+x, k, msgs, 20))
			d = <-cls[x].eps[k].GetRxChannel()
			b, _ = d.GetData().([]byte)
			if _, _, seq, ok := parseFlow(b); !ok || seq != msgs {
				c.Fail("after all messages: client %d endpoint %d got message %d, expected %d", x, k, seq, msgs)
			}
		}
	}
	h.Count("messages", delivered)
	h.Count("connections", int64(clients))
	c.Logf("%s clients=%d endpoints=%d messages/flow=%d mtu=%d sizes<=%d slow=%v %v", kind, clients, neps, msgs, mtu, maxSize, slow, names)
	c.Sig(kind, clients, neps, msgs, mtu, maxSize, slow, names, c.Name)
	for _, x := range append(cls, S) {
		x.us.DeleteTransport(x.tr)
		for _, e := range x.eps {
			x.us.DeleteEndPoint(e)
		}
	}
}

// idlePair is a server and a client that stay silent for long.
type idlePair struct {
	kind   string
	us     [2]ustack.UStack
	tr     [2]ustack.Transport
	ep     [2]ustack.EndPoint
	conn   [2]ustack.TransportConnection
	closed int64
}

func newIdlePair(kind string, extra ...string) *idlePair {
	p := &idlePair{kind: kind}
	addr := newAddress(kind)
	for side := 0; side < 2; side++ {
		us := ustack.NewUStack()
		us.AppendDataProcessor(ustack.NewBytesCodec())
		for _, x := range extra {
			us.AppendDataProcessor(mkHdr(x))
		}
		us.AppendDataProcessor(ustack.NewFrameDecoder())
		ep := ustack.NewEndPoint("e", 0)
		us.AddEndPoint(ep)
		tr := newTransport(kind, addr, side == 0)
		us.AddTransport(tr)
		conns := make(chan ustack.TransportConnection, 4)
		us.SetEventListener(func(e ustack.Event) {
			switch e.Type {
			case ustack.UStackEventNewConnection:
				conns <- e.Data.(ustack.TransportConnection)
			case ustack.UStackEventConnectionClosed:
				atomic.AddInt64(&p.closed, 1)
			}
		})
		us.Run()
		p.us[side], p.tr[side], p.ep[side] = us, tr, ep
		if side == 1 {
			p.conn[1] = <-conns
		} else {
			defer func() { p.conn[0] = <-conns }()
		}
	}
	return p
}

// exchange sends one message each way.
func (p *idlePair) exchange(c *C, when string) {
	for side := 0; side < 2; side++ {
		b := randBytes(c.R, 100)
		send(p.ep[side], p.conn[side], append([]byte(nil), b...))
		var d ustack.EndPointData
		for d == nil {
			select {
			case d = <-p.ep[1-side].GetRxChannel():
			case <-time.After(20 * time.Millisecond):
				// the end of the connection is a fact, silence is not
				if p.conn[side].Closed() || p.conn[1-side].Closed() {
					c.Fail("%s %s: nobody closed the connection, but it is closed", p.kind, when)
				}
			}
		}
		if got, _ := d.GetData().([]byte); string(got) != string(b) {
			c.Fail("%s %s: %s arrived as %s", p.kind, when, short(b), short(got))
		}
	}
}

func TestC11(t *testing.T) {
	Plain(t, "C11", func(h *H) {
		// these stay silent while everything else runs
		begin := time.Now()
		var idle []*idlePair
		if h.only == "" || strings.HasPrefix(h.only, "idle") {
			idle = []*idlePair{newIdlePair("tcp"), newIdlePair("unix"), newIdlePair("tcp", "stat"), newIdlePair("unix", "hb")}
		}
		h.Case("idle-begin", func(c *C) {
			for _, p := range idle[:len(idle)-1] {
				p.exchange(c, "at the beginning")
			}
		})
		n := h.N(10, 120)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("mix-%d", i), func(c *C) {
				r := c.R
				kind := []string{"tcp", "unix"}[i%2]
				mtu := []int{256, 2048, 60000}[r.Intn(3)]
				maxSize := mtu - 60
				if mtu == 60000 {
					maxSize = 20000
				}
				msgs := 150 + r.Intn(250)
				if mtu == 60000 {
					msgs = 60
				}
				extra := [][]string{nil, {"stat"}, {"hb"}, {"lb", "flow"}}[r.Intn(4)]
				c11case(c, kind, 1+r.Intn(4), 1+r.Intn(3), msgs, 20, maxSize, mtu, r.Intn(2) == 0, 0, extra)
			})
		}
		// large messages of several endpoints share a connection
		for i := 0; i < h.N(4, 24); i++ {
			h.Case(fmt.Sprintf("wide-%d", i), func(c *C) {
				c11case(c, []string{"tcp", "unix"}[i%2], 1+c.R.Intn(2), 3, 40, 20, 15000+c.R.Intn(44000), 60000, c.R.Intn(2) == 0, 0, nil)
			})
		}
		// a connection is closed after its last message was written
		for i := 0; i < h.N(12, 120); i++ {
			h.Case(fmt.Sprintf("part-%d", i), func(c *C) { c11part(c, []string{"tcp", "unix"}[i%2]) })
		}
		// more messages than a small counter can tell apart
		for i, kind := range []string{"tcp", "unix"} {
			h.Case(fmt.Sprintf("volume-%d", i), func(c *C) {
				c11case(c, kind, 1, 1, 66000+c.R.Intn(3000), 20, 24, 256, false, 0, nil)
			})
		}
		// backpressure: far more than all queues hold, consumers slow
		for i, kind := range []string{"tcp", "unix"} {
			h.Case(fmt.Sprintf("backpressure-%d", i), func(c *C) {
				c11case(c, kind, 2, 1, h.N(4000, 40000), 20, 900, 1024, true, 0, nil)
			})
			h.Case(fmt.Sprintf("stall-%d", i), func(c *C) {
				// more than the socket buffers hold
				c11case(c, kind, 1, 1, 1000, 30000, 10000, 50000, false, time.Duration(h.N(12500, 40000))*time.Millisecond, nil)
			})
		}
		h.Case("idle", func(c *C) {
			for time.Since(begin) < time.Duration(h.N(32, 130))*time.Second {
				time.Sleep(time.Second)
				c.Tick()
			}
			for _, p := range idle {
				p.exchange(c, "after a silence")
				if n := atomic.LoadInt64(&p.closed); n != 0 {
					c.Fail("%s: a silent connection was closed", p.kind)
				}
			}
			h.Max("idle_seconds", int64(time.Since(begin).Seconds()))
			c.Sig(len(idle))
		})
	})
}

// TestC11stall: in virtual time, consumers and connections that stand still for long.
func TestC11stall(t *testing.T) {
	Bubble(t, "C11stall", func(h *H) {
		for i := 0; i < h.N(30, 300); i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { c11stall(h, c) })
		}
	})
}

func c11stall(h *H, c *C) {
	r := c.R
	names := append([]string{"bytes", "sess"}, [][]string{nil, {"stat"}, {"lb", "flow"}, {"pad7"}}[r.Intn(4)]...)
	names = append(names, "frame")
	mtu := 200 + r.Intn(800)
	neps := 1 + r.Intn(3)
	mk := func() (*Node, []ustack.EndPoint) {
		var eps []ustack.EndPoint
		for k := 0; k < neps; k++ {
			eps = append(eps, ustack.NewEndPoint("e", k))
		}
		return NewNode(mtu, composition(c, names), eps...), eps
	}
	A, ea := mk()
	B, eb := mk()
	nconn := 1 + r.Intn(3)
	var ca, cb []*MemConn
	var stalls int64
	for k := 0; k < nconn; k++ {
		x, y := Pair("x", "x", cutter(r.Int63(), mtu), cutter(r.Int63(), mtu))
		rr := rand.New(rand.NewSource(r.Int63()))
		var mu sync.Mutex
		write := x.OnWrite
		// the connection accepts nothing for a while, now and then
		x.OnWrite = func(p []byte) (int, error) {
			mu.Lock()
			wait := time.Duration(0)
			if rr.Intn(150) == 0 {
				wait = time.Duration(rr.Intn(7200)) * time.Second
			}
			mu.Unlock()
			if wait > 0 {
				atomic.AddInt64(&stalls, 1)
				time.Sleep(wait)
			}
			return write(p)
		}
		A.Tr.Push(x)
		B.Tr.Push(y)
		ca, cb = append(ca, x), append(cb, y)
	}
	Settle()
	msgs := 300 + r.Intn(900)
	var wg sync.WaitGroup
	for k := range ea {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(2)
		go func() {
			defer wg.Done()
			for m := 0; m < msgs; m++ {
				for x := range ca {
					send(ea[k], ca[x], flowMsg(rr, x, k, m, 20+rr.Intn(mtu-60-20)))
				}
			}
		}()
		pauses := map[int]time.Duration{}
		for p := 1 + r.Intn(3); p > 0; p-- {
			pauses[r.Intn(msgs*nconn)] = time.Duration(1+r.Intn(100000)) * time.Second
		}
		listen := r.Intn(2) == 0
		in := make(chan ustack.EndPointData)
		if listen {
			eb[k].SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) { in <- d })
		}
		go func() {
			defer wg.Done()
			sub := c.Sub()
			next := make([]int, nconn)
			for m := 0; m < msgs*nconn; m++ {
				if p := pauses[m]; p > 0 {
					time.Sleep(p)
				}
				var d ustack.EndPointData
				if listen {
					d = <-in
				} else {
					d = <-eb[k].GetRxChannel()
				}
				b, _ := d.GetData().([]byte)
				x, ep, seq, ok := parseFlow(b)
				if !ok || ep != k || x >= nconn || d.GetConnection() != ustack.TransportConnection(cb[x]) {
					sub.Fail("endpoint %d got a wrong message %s", k, short(b))
				}
				if seq != next[x] {
					sub.Fail("endpoint %d connection %d: message %d came where %d was due", k, x, seq, next[x])
				}
				next[x]++
				sub.Tick()
			}
		}()
	}
	wg.Wait()
	Settle()
	for k := range eb {
		if n := len(eb[k].GetRxChannel()); n > 0 {
			c.Fail("%d messages more than were sent", n)
		}
	}
	for x := range ca {
		if ca[x].Closed() || cb[x].Closed() {
			c.Fail("a connection was closed")
		}
	}
	h.Count("messages", int64(msgs*nconn*neps))
	h.Count("stalled_writes", stalls)
	c.Logf("%v mtu=%d connections=%d endpoints=%d messages=%d stalled writes=%d", names, mtu, nconn, neps, msgs, stalls)
	c.Sig(names, mtu, nconn, neps, msgs)
	A.Shut()
	B.Shut()
	time.Sleep(time.Minute)
	Settle()
}
