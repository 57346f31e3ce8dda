package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"ustack"
)

// refStub is a reference connection that is only carried in contexts.
type refStub struct{ *MemConn }

func (refStub) UseReference() bool { return true }

// shape is one shaping processor with the outcome it declares.
type shape struct {
	name string
	mk   func() ustack.DataProcessor
	// where a message of one direction must come out: +1 top, -1 bottom, 0 nowhere, 9 unspecified
	down, up int
}

type call struct {
	fn    int
	upper bool
	ctx   ustack.Context
}

func TestC13direct(t *testing.T) {
	Plain(t, "C13direct", func(h *H) {
		one := func(c *C, mk func() ustack.DataProcessor, down, up func(k int) int, after func(dir string, k int, ctx ustack.Context)) {
			r := c.R
			var top, bot []ustack.Context
			u := NewUnit(256, func(x ustack.Context) { top = append(top, x) }, func(x ustack.Context) { bot = append(bot, x) }, mk())
			over := NewMemConn("over")
			over.Close()
			conns := []ustack.TransportConnection{NewMemConn("a"), NewMemConn("a"), refStub{NewMemConn("ref")}, over, nil}
			for k := 0; k < 40; k++ {
				goDown := r.Intn(2) == 0
				cn := conns[r.Intn(5)]
				if !goDown && (cn == nil || cn == ustack.TransportConnection(over) && up(k) == -1) {
					cn = conns[0]
				}
				payload := randBytes(r, r.Intn(200))
				if r.Intn(6) == 0 {
					payload = payload[:r.Intn(2)%(len(payload)+1)]
				}
				head := r.Intn(20)
				ctx := ustack.NewUStackContext().SetConnection(cn).SetOption("session", k)
				var obj *Obj
				if cn != nil && cn.UseReference() {
					obj = &Obj{A: k}
					ctx.SetMessage(obj)
				} else {
					ub := ustack.UBufAllocWithHeadReserved(256, head)
					ub.Write(payload)
					ctx.SetBuffer(ub)
				}
				top, bot = nil, nil
				var want int
				dir := "down"
				if goDown {
					want = down(k)
					c.Guard("OnUpperData", func() { u.Down(ctx) })
				} else {
					dir = "up"
					want = up(k)
					c.Guard("OnLowerData", func() { u.Upw(ctx) })
				}
				wt, wb := 0, 0
				switch want {
				case 1:
					wt = 1
				case -1:
					wb = 1
				case 9:
					continue
				}
				if len(top) != wt || len(bot) != wb {
					c.Fail("message %d going %s came out %d times at the top and %d times at the bottom, want %d and %d", k, dir, len(top), len(bot), wt, wb)
				}
				for _, x := range append(top, bot...) {
					if x.GetConnection() != cn {
						c.Fail("message %d going %s came out for another connection", k, dir)
					}
					if obj != nil {
						if x.GetMessage() != interface{}(obj) {
							c.Fail("message %d going %s: another object came out", k, dir)
						}
					} else if !bytes.Equal(content(x.GetBuffer()), payload) {
						c.Fail("message %d going %s came out as %s, was %s", k, dir, short(content(x.GetBuffer())), short(payload))
					}
				}
				h.Count("messages", 1)
				if after != nil {
					after(dir, k, ctx)
				}
			}
		}
		fix := func(v int) func(int) int { return func(int) int { return v } }
		fixed := []shape{
			{"discarder", func() ustack.DataProcessor { return ustack.NewDiscarder() }, -1, 0},
			{"discarder-off", func() ustack.DataProcessor { return ustack.NewDiscarder().SetEnable(false) }, -1, 1},
			{"discarder-on", func() ustack.DataProcessor { return ustack.NewDiscarder().SetEnable(false).SetEnable(true) }, -1, 0},
			{"echo", func() ustack.DataProcessor { return ustack.NewEcho() }, -1, -1},
			{"echo-off", func() ustack.DataProcessor { return ustack.NewEcho().SetEnable(false) }, -1, 1},
			{"loopback", func() ustack.DataProcessor { return ustack.NewLoopback() }, 1, 9},
			{"flow", func() ustack.DataProcessor { return ustack.NewFlowController() }, -1, 1},
			{"flow-off", func() ustack.DataProcessor { return ustack.NewFlowController().SetEnable(false) }, -1, 1},
			{"filter-none", func() ustack.DataProcessor { return ustack.NewFilter() }, 0, 0},
			{"forwarder-none", func() ustack.DataProcessor { return ustack.NewForwarder() }, -1, 1},
			{"filter-off", func() ustack.DataProcessor {
				return ustack.NewFilter(func(ustack.Context, bool) bool { return false }).SetEnable(false)
			}, -1, 1},
			{"forwarder-off", func() ustack.DataProcessor {
				return ustack.NewForwarder(func(ustack.Context, bool) bool { return true }).SetEnable(false)
			}, -1, 1},
		}
		for rep := 0; rep < h.N(6, 60); rep++ {
			for _, s := range fixed {
				h.Case(fmt.Sprintf("%s-%d", s.name, rep), func(c *C) {
					one(c, s.mk, fix(s.down), fix(s.up), nil)
					c.Sig(s.name, rep)
					c.Logf("%s", s.name)
				})
			}
		}
		// every outcome vector of up to 5 predicates, per direction
		wide := rand.New(rand.NewSource(h.Seed))
		for _, n := range []int{1, 2, 3, 4, 5, 9, 17, 40, 60} {
			var vs []int
			for v := 0; n <= 5 && v < 1<<uint(n); v++ {
				vs = append(vs, v)
			}
			for k := 0; n > 5 && k < h.N(8, 60); k++ { // of many, none, one, some
				vs = append(vs, []int{0, 1 << uint(wide.Intn(n)), 1 << uint(n-1), int(wide.Int63n(1 << uint(n)))}[k%4])
			}
			for vi, v := range vs {
				for _, kind := range []string{"filter", "forwarder"} {
					h.Case(fmt.Sprintf("%s-%d-%d", kind, n, vi), func(c *C) {
						// the vector changes with every message: shift by k, other direction inverted
						out := func(i int, k int, upper bool) bool {
							x := (v>>uint((i+k)%n))&1 == 1
							return x != (upper && k%3 == 0)
						}
						cur := 0
						var calls []call
						mkFn := func(i int) func(ctx ustack.Context, up bool) bool {
							return func(ctx ustack.Context, up bool) bool {
								calls = append(calls, call{i, up, ctx})
								return out(i, cur, up)
							}
						}
						first := func(k int, upper bool) int {
							for i := 0; i < n; i++ {
								if out(i, k, upper) {
									return i
								}
							}
							return -1
						}
						var mk func() ustack.DataProcessor
						if kind == "filter" {
							mk = func() ustack.DataProcessor {
								var f []ustack.FilterFn
								for i := 0; i < n; i++ {
									f = append(f, mkFn(i))
								}
								return ustack.NewFilter(f...)
							}
						} else {
							mk = func() ustack.DataProcessor {
								var f []ustack.ForwardFn
								for i := 0; i < n; i++ {
									f = append(f, mkFn(i))
								}
								return ustack.NewForwarder(f...)
							}
						}
						dec := func(upper bool, through int) func(int) int {
							return func(k int) int {
								cur, calls = k, nil
								hit := first(k, upper) >= 0
								if (kind == "filter") == hit {
									return through
								}
								return 0
							}
						}
						one(c, mk, dec(false, -1), dec(true, 1), func(dir string, k int, ctx ustack.Context) {
							for _, x := range calls {
								if x.upper != (dir == "up") {
									c.Fail("message %d going %s: a function was asked for the other direction", k, dir)
								}
								if x.ctx != ctx {
									c.Fail("message %d: a function was asked about another message", k)
								}
							}
							if kind == "forwarder" {
								f := first(k, dir == "up")
								for i, x := range calls {
									if x.fn > f && f >= 0 {
										c.Fail("message %d: function %d was asked although %d had claimed the message", k, x.fn, f)
									}
									for _, y := range calls[:i] {
										if y.fn == x.fn {
											c.Fail("message %d: function %d was asked twice", k, x.fn)
										}
									}
								}
								if f < 0 && len(calls) != n {
									c.Fail("message %d: %d of %d functions were asked", k, len(calls), n)
								}
							}
						})
						c.Sig(kind, n, v)
						c.Logf("%s %d functions, outcomes %b", kind, n, v)
					})
				}
			}
		}
	})
}

func shapeNames(r *rand.Rand) []string {
	pool := []string{"flow", "flowoff", "echooff", "discoff", "filteroff", "fwdoff", "lboff", "hb", "stat", "sess", "filterall"}
	var l []string
	for k := r.Intn(5); k > 0; k-- {
		l = append(l, pool[r.Intn(len(pool))])
	}
	return l
}

func shapeProcs(names []string) []ustack.DataProcessor {
	var l []ustack.DataProcessor
	for _, n := range names {
		switch n {
		case "flowoff":
			l = append(l, ustack.NewFlowController().SetEnable(false))
		case "echooff":
			l = append(l, ustack.NewEcho().SetEnable(false))
		case "discoff":
			l = append(l, ustack.NewDiscarder().SetEnable(false))
		case "filteroff":
			l = append(l, ustack.NewFilter().SetEnable(false))
		case "fwdoff":
			l = append(l, ustack.NewForwarder(func(ustack.Context, bool) bool { return true }).SetEnable(false))
		case "filterall":
			l = append(l, ustack.NewFilter(func(ustack.Context, bool) bool { return false }, func(ustack.Context, bool) bool { return true }))
		case "lboff":
			l = append(l, ustack.NewLoadBalancer().SetEnable(false))
		case "echo":
			l = append(l, ustack.NewEcho())
		case "disc":
			l = append(l, ustack.NewDiscarder())
		case "loop":
			l = append(l, ustack.NewLoopback())
		default:
			l = append(l, mkHdr(n))
		}
	}
	return l
}

// whole stacks: one side has an echo / discarder / loopback / nothing at some position
func TestC13stack(t *testing.T) {
	Bubble(t, "C13stack", func(h *H) {
		n := h.N(240, 900)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { c13stack(h, c) })
		}
	})
}

func c13stack(h *H, c *C) {
	r := c.R
	mode := []string{"echo", "disc", "loop", "pass"}[r.Intn(4)]
	names := shapeNames(r)
	framed := mode != "pass" || r.Intn(3) > 0
	if mode != "pass" && r.Intn(3) == 0 {
		framed = false
	}
	// below framing it handles raw segments
	below := framed && mode != "pass" && mode != "loop" && r.Intn(5) == 0
	if below && mode == "echo" {
		// nothing else may write in the middle of returned segments
		for k := range names {
			if names[k] == "hb" {
				names[k] = "flow"
			}
		}
	}
	mtu := 96 + r.Intn(400)
	over := 0
	for _, p := range shapeProcs(names) {
		over += p.GetOverhead()
	}
	if framed {
		over += 4
	}
	limit := mtu - over
	// position of the special processor: anywhere between codec and framing
	special := append([]string(nil), names...)
	if mode != "pass" && !below {
		at := r.Intn(len(names) + 1)
		special = append(append(append([]string(nil), names[:at]...), mode), names[at:]...)
	}
	build := func(l []string) []ustack.DataProcessor {
		p := append([]ustack.DataProcessor{ustack.NewBytesCodec()}, shapeProcs(l)...)
		if framed {
			p = append(p, ustack.NewFrameDecoder())
		}
		return p
	}
	hasSess := false
	for _, x := range names {
		hasSess = hasSess || x == "sess"
	}
	session := 0
	if hasSess {
		session = r.Intn(5)
	}
	epS := ustack.NewEndPoint("s", session)
	procs := build(special)
	if below {
		procs = append(procs, shapeProcs([]string{mode})...)
	}
	S := NewNode(mtu, procs, epS)
	clients := 1 + r.Intn(3)
	type cl struct {
		n      *Node
		ep     ustack.EndPoint
		cc, sc *MemConn
		sent   [][]byte
		fromS  [][]byte
	}
	var cls []*cl
	for k := 0; k < clients; k++ {
		x := &cl{ep: ustack.NewEndPoint("c", session)}
		x.n = NewNode(mtu, build(names), x.ep)
		var cutA, cutB Cutter
		if framed {
			cutA, cutB = cutter(r.Int63(), mtu), cutter(r.Int63(), mtu)
		}
		x.cc, x.sc = Pair("same", "same", cutA, cutB)
		x.n.Tr.Push(x.cc)
		S.Tr.Push(x.sc)
		cls = append(cls, x)
	}
	Settle()
	for k := 0; k < 30; k++ {
		x := cls[r.Intn(clients)]
		m := randBytes(r, 1+r.Intn(limit))
		if r.Intn(5) == 0 {
			m = randBytes(r, limit)
		}
		if r.Intn(2) == 0 || below && mode == "echo" {
			x.sent = append(x.sent, m)
			send(x.ep, x.cc, m)
		} else {
			x.fromS = append(x.fromS, m)
			send(epS, x.sc, m)
		}
		if !framed || r.Intn(3) == 0 {
			// without framing one write is one message only if read as such
			Settle()
		}
		if r.Intn(10) == 0 {
			time.Sleep(1500 * time.Millisecond)
		}
	}
	atS := map[ustack.TransportConnection][][]byte{}
	for _, d := range drain(epS) {
		b, ok := d.GetData().([]byte)
		if !ok {
			c.Fail("%s: the server's endpoint got a %T", mode, d.GetData())
		}
		atS[d.GetConnection()] = append(atS[d.GetConnection()], b)
	}
	same := func(what string, got, want [][]byte) {
		if len(got) != len(want) {
			c.Fail("%s %v framed=%v: %s: %d messages, want %d", mode, special, framed, what, len(got), len(want))
		}
		for k := range got {
			if !bytes.Equal(got[k], want[k]) {
				c.Fail("%s %v framed=%v: %s: message %d is %s, want %s", mode, special, framed, what, k, short(got[k]), short(want[k]))
			}
		}
	}
	for _, x := range cls {
		var atC [][]byte
		for _, d := range drain(x.ep) {
			b, _ := d.GetData().([]byte)
			atC = append(atC, b)
			if d.GetConnection() != ustack.TransportConnection(x.cc) {
				c.Fail("attributed to another connection")
			}
		}
		up := atS[x.sc]
		switch mode {
		case "pass":
			same("server received", up, x.sent)
			same("client received", atC, x.fromS)
		case "echo":
			same("server received above an echo", up, nil)
			// echoes and the server's own messages share the connection: compare as two subsequences
			if !interleaving(atC, x.sent, x.fromS) {
				c.Fail("echo %v: the client got %d messages that are not its %d own plus the server's %d, each in order", special, len(atC), len(x.sent), len(x.fromS))
			}
		case "disc":
			same("server received above a discarder", up, nil)
			same("client received", atC, x.fromS)
		case "loop":
			same("client received from a stack with a loopback", atC, nil)
			// incoming data is not specified; what the server sent comes back to it
			var own [][]byte
			own = append(own, up...)
			same("server got back", own, x.fromS)
		}
		h.Count("messages", int64(len(x.sent)+len(x.fromS)))
	}
	c.Sig(mode, special, framed, below, mtu)
	c.Logf("%s procs=%v framed=%v below=%v mtu=%d clients=%d", mode, special, framed, below, mtu, clients)
	S.Shut()
	for _, x := range cls {
		x.n.Shut()
	}
	Settle()
}

// interleaving tells if l is a merge of a and b that keeps both orders.
func interleaving(l, a, b [][]byte) bool {
	if len(l) != len(a)+len(b) {
		return false
	}
	// reach[i]: i of a and pos-i of b used
	reach := map[int]bool{0: true}
	for pos, m := range l {
		nxt := map[int]bool{}
		for i := range reach {
			if i < len(a) && bytes.Equal(a[i], m) {
				nxt[i+1] = true
			}
			if j := pos - i; j < len(b) && bytes.Equal(b[j], m) {
				nxt[i] = true
			}
		}
		if len(nxt) == 0 {
			return false
		}
		reach = nxt
	}
	return true
}
