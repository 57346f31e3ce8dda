package harness

import (
	"fmt"
	"math/rand"
	"testing"
	"time"

	"ustack"
)

// refMsg makes a value of some kind and a check that another value is the identical one.
func refMsg(r *rand.Rand, id int) (interface{}, func(x interface{}) bool) {
	switch r.Intn(8) {
	case 7:
		// nothing in it, but not nothing
		m := []interface{}{"", 0, false, [0]int{}, struct{}{}, [2]int{}, 0.0, time.Duration(0)}[r.Intn(8)]
		if r.Intn(3) == 0 {
			m = []byte{}
			return m, func(x interface{}) bool {
				g, ok := x.([]byte)
				return ok && g != nil && len(g) == 0
			}
		}
		return m, func(x interface{}) bool { return x == m }
	case 0:
		b := randBytes(r, 1+r.Intn(5000))
		return b, func(x interface{}) bool {
			g, ok := x.([]byte)
			return ok && len(g) == len(b) && &g[0] == &b[0]
		}
	case 1:
		m := map[string]int{"id": id}
		return m, func(x interface{}) bool {
			g, ok := x.(map[string]int)
			if !ok || g["id"] != id {
				return false
			}
			m["probe"] = id + 7
			return g["probe"] == id+7
		}
	case 2:
		ub := ustack.UBufAlloc(1 + r.Intn(64))
		return ub, func(x interface{}) bool { return x == interface{}(ub) }
	case 3:
		ch := make(chan int, 1)
		return ch, func(x interface{}) bool { return x == interface{}(ch) }
	case 4:
		s := fmt.Sprint("string-", id)
		return s, func(x interface{}) bool { return x == interface{}(s) }
	case 5:
		f := id
		return &f, func(x interface{}) bool { return x == interface{}(&f) }
	}
	o := &Obj{A: id}
	return o, func(x interface{}) bool { return x == interface{}(o) }
}

func refProcs(r *rand.Rand, c *C) ([]ustack.DataProcessor, string) {
	var l []ustack.DataProcessor
	names := ""
	for k := r.Intn(6); k > 0; k-- {
		switch n := []string{"frame", "hb", "stat", "flow", "lb", "lboff", "frameoff", "statoff"}[r.Intn(8)]; n {
		case "hb":
			names += " hb"
			l = append(l, ustack.NewHeartbeat().SetOption("IntervalInSecond", 1+r.Intn(2)).SetOption("TimeoutInSecond", 1+r.Intn(4)).SetOption("CloseOnLost", r.Intn(2) == 0))
		case "stat":
			names += " stat"
			p := ustack.NewStatCounter()
			if r.Intn(2) == 0 {
				p.SetOption("Collect.IntervalInSecond", 1)
			}
			l = append(l, p)
		case "lb":
			names += " lb"
			l = append(l, ustack.NewLoadBalancer())
		case "lboff":
			names += " lboff"
			l = append(l, ustack.NewLoadBalancer().SetEnable(false))
		case "frameoff":
			names += " frameoff"
			l = append(l, ustack.NewFrameDecoder().SetEnable(false))
		case "statoff":
			names += " statoff"
			l = append(l, ustack.NewStatCounter().SetEnable(false))
		default:
			names += " " + n
			l = append(l, mkHdr(n))
		}
	}
	return l, names
}

var refSeq int

// refStacks: whole stacks on reference transports, several addresses, restarts.
// refForms are ways to write addresses that differ in one place only.
var refForms = []string{"addr%d", "%d", " %d", "%d ", "\t%d", "a/b/%d", "a/b/%d/", "a//b/%d", "/%d", "%d/s", "%d/S", "Case%d", "case%d",
	"%d:80", ":%d", "0%d", "%d.", "%d\x00", "\x00%d", "%d#1", "%d?x", "%d,", "tcp://%d", "unix:%d",
	"%d-and-a-long-common-end-of-all-the-addresses-there-are-in-this-case-of-the-check",
	"a-long-common-beginning-of-all-the-addresses-there-are-in-this-case-of-the-check-%d",
	"a-long-common-beginning-of-all-the-addresses-%d-and-a-long-common-end-of-them-all"}

func refStacks(h *H, c *C) {
	r := c.R
	type side struct {
		n    *Node
		ep   ustack.EndPoint
		tr   ustack.Transport
		conn ustack.TransportConnection
	}
	type pair struct {
		s    [2]*side
		name string
	}
	var ps []*pair
	mk := func(server bool, addr string) *side {
		x := &side{ep: ustack.NewEndPoint("e", 0)}
		procs, names := refProcs(r, c)
		c.Logf("%s server=%v procs:%s", addr, server, names)
		c.Sig(names)
		x.tr = ustack.NewReferenceTransport("ref").ForServer(server).SetAddress(addr)
		if r.Intn(2) == 0 {
			x.tr.SetOption("MaxQueueSize", 1+r.Intn(20))
		}
		x.n = NewNode(256, procs, x.ep)
		x.n.US.AddTransport(x.tr)
		return x
	}
	form := refForms[r.Intn(len(refForms))]
	for k := 1 + r.Intn(3); k > 0; k-- {
		refSeq++
		p := &pair{name: fmt.Sprintf(form, refSeq)}
		first := r.Intn(2)
		p.s[first] = mk(first == 0, p.name)
		if r.Intn(2) == 0 {
			Settle()
		}
		p.s[1-first] = mk(first == 1, p.name)
		ps = append(ps, p)
	}
	Settle()
	connOf := func(x *side) ustack.TransportConnection {
		var cn ustack.TransportConnection
		for _, e := range x.n.Events.All() {
			if e.Type == ustack.UStackEventNewConnection {
				cn = e.Data.(ustack.TransportConnection)
			}
		}
		return cn
	}
	id := 0
	exchange := func(what string) {
		type dir struct {
			p    *pair
			from int
			chk  []func(interface{}) bool
			msg  []interface{}
		}
		var dirs []*dir
		for _, p := range ps {
			for s := 0; s < 2; s++ {
				d := &dir{p: p, from: s}
				for k := r.Intn(60); k > 0; k-- {
					id++
					m, f := refMsg(r, id)
					d.msg = append(d.msg, m)
					d.chk = append(d.chk, f)
				}
				dirs = append(dirs, d)
				cn := connOf(p.s[s])
				if cn == nil {
					c.Fail("%s %s: no connection on side %d", what, p.name, s)
				}
				go func(ms []interface{}, ep ustack.EndPoint) {
					for k, m := range ms {
						if k%16 == 15 {
							time.Sleep(700 * time.Millisecond)
						}
						send(ep, cn, m)
					}
				}(d.msg, p.s[s].ep)
			}
		}
		time.Sleep(time.Duration(3+r.Intn(20)) * time.Second)
		for _, d := range dirs {
			to := d.p.s[1-d.from]
			got := drain(to.ep)
			if len(got) != len(d.chk) {
				c.Fail("%s %s: %d messages sent from side %d, %d delivered", what, d.p.name, len(d.chk), d.from, len(got))
			}
			for k, g := range got {
				if !d.chk[k](g.GetData()) {
					c.Fail("%s %s: message %d of side %d (%T) arrived as another object (%T)", what, d.p.name, k, d.from, d.msg[k], g.GetData())
				}
				if g.GetConnection() != connOf(to) {
					c.Fail("%s %s: message attributed to another connection", what, d.p.name)
				}
			}
			h.Count("objects_delivered", int64(len(got)))
		}
	}
	quiet := func(what string) {
		for _, p := range ps {
			for s := 0; s < 2; s++ {
				for _, e := range p.s[s].n.Events.All() {
					if e.Type == ustack.UStackEventHeartbeatLost {
						c.Fail("%s: a reference connection was reported lost by the heartbeat processor", what)
					}
				}
			}
		}
	}
	exchange("first")
	quiet("first")
	for round := r.Intn(3); round > 0; round-- {
		// end one side or both, then start again
		for _, p := range ps {
			if r.Intn(3) == 0 {
				continue
			}
			which := []int{0, 1}
			if r.Intn(2) == 0 {
				which = which[:1]
				if r.Intn(2) == 0 {
					which[0] = 1
				}
			}
			for _, s := range which {
				x := p.s[s]
				cn := connOf(x)
				c.Logf("%s side %d removed", p.name, s)
				x.n.US.DeleteTransport(x.tr)
				if !cn.Closed() {
					c.Fail("the connection of a removed reference transport is not closed")
				}
				send(x.ep, cn, &Obj{A: -1}) // must go nowhere
			}
			Settle()
			for _, s := range which {
				x := p.s[s]
				if n := x.n.EventsFor(ustack.UStackEventConnectionClosed, connOf(x)); n != 1 {
					c.Fail("%d closed events of a removed reference transport's connection", n)
				}
				if got := drain(x.ep); len(got) != 0 {
					c.Fail("a stopped reference transport delivered %d messages", len(got))
				}
			}
			for s := 0; s < 2; s++ {
				if got := drain(p.s[s].ep); len(got) != 0 {
					c.Fail("a message sent on a closed connection was delivered")
				}
			}
			for _, s := range which {
				p.s[s].n.US.AddTransport(p.s[s].tr)
			}
			Settle()
		}
		exchange("after restart")
		quiet("after restart")
	}
	for _, p := range ps {
		for s := 0; s < 2; s++ {
			p.s[s].n.US.DeleteTransport(p.s[s].tr)
			p.s[s].n.Shut()
		}
	}
	Settle()
}

func TestC12stack(t *testing.T) {
	Bubble(t, "C12stack", func(h *H) {
		n := h.N(120, 400)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { refStacks(h, c) })
		}
	})
}
