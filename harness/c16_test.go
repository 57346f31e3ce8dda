package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"
	"time"

	"ustack"
)

// ctlProcs makes a composition with control traffic; names are in stack order.
func ctlProcs(r *rand.Rand, names []string, timeout int) []ustack.DataProcessor {
	l := []ustack.DataProcessor{ustack.NewBytesCodec()}
	if r.Intn(2) == 0 {
		l[0] = anyCodec()
	}
	for _, n := range names {
		switch n {
		case "hb":
			l = append(l, ustack.NewHeartbeat().SetOption("IntervalInSecond", 1+r.Intn(2)).SetOption("TimeoutInSecond", timeout))
		case "stat":
			p := ustack.NewStatCounter()
			if r.Intn(4) > 0 {
				p.SetOption("Collect.IntervalInSecond", 1+r.Intn(2))
			}
			if r.Intn(5) == 0 {
				p.SetEnable(false)
			}
			l = append(l, p)
		default:
			l = append(l, mkHdr(n))
		}
	}
	return append(l, ustack.NewFrameDecoder())
}

// ctlPayload makes bytes that look like control messages.
func ctlPayload(r *rand.Rand, max int) []byte {
	tags := []byte{tagBeat, tagReq, tagRes, 0x00, 0x19, 0x82, 0x11, 0x08}
	var b []byte
	switch r.Intn(4) {
	case 0:
		b = []byte{tags[r.Intn(len(tags))]}
	case 1:
		for k := 1 + r.Intn(8); k > 0; k-- {
			b = append(b, tags[r.Intn(len(tags))])
		}
	case 2:
		b = append([]byte{tags[r.Intn(3)]}, randBytes(r, r.Intn(30))...)
	default:
		b = randBytes(r, 1+r.Intn(max))
	}
	if len(b) > max {
		b = b[:max]
	}
	return b
}

func TestC16(t *testing.T) {
	Bubble(t, "C16", func(h *H) {
		n := h.N(150, 450)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("pair-%d", i), func(c *C) { c16pair(h, c) })
			h.Case(fmt.Sprintf("inject-%d", i), func(c *C) { c16inject(h, c) })
			if i%3 == 0 {
				h.Case(fmt.Sprintf("ref-%d", i), func(c *C) { refStacks(h, c) })
			}
		}
	})
}

func ctlNames(r *rand.Rand) []string {
	pool := []string{"hb", "stat", "hb", "stat", "lb", "flow", "sess"}
	for {
		var l []string
		ctl := false
		for k := 1 + r.Intn(5); k > 0; k-- {
			n := pool[r.Intn(len(pool))]
			l = append(l, n)
			ctl = ctl || n == "hb" || n == "stat"
		}
		if ctl {
			return l
		}
	}
}

// two stacks, application traffic in both directions at random virtual times
func c16pair(h *H, c *C) {
	r := c.R
	names := ctlNames(r)
	mtu := 64 + r.Intn([]int{200, 800, 6000}[r.Intn(3)])
	empty := r.Intn(4) == 0 // messages may have no bytes at all
	mk := func() (*Node, ustack.EndPoint) {
		ep := ustack.NewEndPoint("e", 0)
		procs := ctlProcs(r, names, 5)
		if empty {
			procs[0] = anyCodec()
		}
		n := NewNode(mtu, procs, ep)
		n.US.SetName(string(randBytes(r, []int{8, 8, 127, 128, 129, 200}[r.Intn(6)])))
		return n, ep
	}
	A, ea := mk()
	B, eb := mk()
	limit := mtu - A.US.GetOverhead()
	ca, cb := Pair("a", "b", cutter(r.Int63(), mtu), cutter(r.Int63(), mtu))
	A.Tr.Push(ca)
	B.Tr.Push(cb)
	Settle()
	var wantA, wantB, gotA, gotB [][]byte
	take := func() {
		for _, d := range drain(ea) {
			b, _ := d.GetData().([]byte)
			gotA = append(gotA, b)
		}
		for _, d := range drain(eb) {
			b, _ := d.GetData().([]byte)
			gotB = append(gotB, b)
		}
	}
	check := func() {
		for _, x := range []struct {
			who       string
			got, want [][]byte
		}{{"A", gotA, wantA}, {"B", gotB, wantB}} {
			for k := range x.got {
				if k >= len(x.want) {
					c.Fail("%v: endpoint %s got %s, which nobody sent", names, x.who, short(x.got[k]))
				}
				if !bytes.Equal(x.got[k], x.want[k]) {
					c.Fail("%v: endpoint %s message %d is %s, sent was %s", names, x.who, k, short(x.got[k]), short(x.want[k]))
				}
			}
			if len(x.got) != len(x.want) {
				c.Fail("%v: endpoint %s got %d messages of %d", names, x.who, len(x.got), len(x.want))
			}
		}
	}
	for k := 30 + r.Intn(60); k > 0; k-- {
		switch r.Intn(8) {
		case 0:
			time.Sleep(time.Duration(r.Intn(3000)) * time.Millisecond)
		case 1:
			// to the moment control traffic is sent
			time.Sleep(time.Second - time.Duration(time.Now().UnixNano()%int64(time.Second)))
		case 2:
			take()
			check()
		}
		p := ctlPayload(r, limit)
		if empty && r.Intn(4) == 0 {
			p = []byte{}
		}
		if r.Intn(2) == 0 {
			wantB = append(wantB, p)
			send(ea, ca, append([]byte(nil), p...))
		} else {
			wantA = append(wantA, p)
			send(eb, cb, append([]byte(nil), p...))
		}
	}
	time.Sleep(12 * time.Second)
	take()
	check()
	if ca.Closed() || cb.Closed() {
		c.Fail("%v: the connection was closed", names)
	}
	for _, n := range []*Node{A, B} {
		for _, e := range n.Events.All() {
			if e.Type == ustack.UStackEventHeartbeatLost {
				c.Fail("%v: heartbeat lost on a working connection", names)
			}
		}
	}
	ctl := len(ca.Writes.All()) + len(cb.Writes.All()) - len(wantA) - len(wantB)
	h.Count("control_messages_on_wire", int64(ctl))
	h.Count("application_messages", int64(len(wantA)+len(wantB)))
	c.Sig(names, mtu, len(wantA), len(wantB))
	c.Logf("procs=%v mtu=%d messages=%d/%d control=%d", names, mtu, len(wantA), len(wantB), ctl)
	A.Shut()
	B.Shut()
	time.Sleep(4 * time.Second)
	Settle()
}

// one stack, the peer is the harness: control messages of any form anywhere in the stream
func c16inject(h *H, c *C) {
	r := c.R
	names := ctlNames(r)
	mtu := 200
	ep := ustack.NewEndPoint("e", 0)
	N := NewNode(mtu, ctlProcs(r, names, 1000000), ep)
	cn := NewMemConn("x")
	N.Tr.Push(cn)
	Settle()
	// encode a message that enters the stack at layer i (0: as if from the codec)
	enc := func(i int, b []byte) []byte {
		b = append([]byte(nil), b...)
		for ; i < len(names); i++ {
			switch names[i] {
			case "hb", "stat", "lb":
				b = append([]byte{upTag(names[i])}, b...)
			case "sess":
				b = append(make([]byte, 4), b...)
			}
		}
		return frame(b)
	}
	var stream []byte
	var want, got [][]byte
	ctl := 0
	flush := func() {
		cn.FeedBytes(cut(r, stream, mtu)...)
		stream = nil
		Settle()
		for _, d := range drain(ep) {
			b, _ := d.GetData().([]byte)
			got = append(got, b)
		}
	}
	for k := 40 + r.Intn(60); k > 0; k-- {
		if r.Intn(2) == 0 {
			p := ctlPayload(r, 100)
			want = append(want, p)
			stream = append(stream, enc(0, p)...)
		} else {
			i := r.Intn(len(names))
			var b []byte
			switch names[i] {
			case "hb":
				b = []byte{tagBeat}
			case "stat":
				b = []byte{[]byte{tagReq, tagRes}[r.Intn(2)]}
			default:
				continue
			}
			ctl++
			if r.Intn(2) == 0 {
				b = append(b, randBytes(r, r.Intn([]int{40, 40, 300}[r.Intn(3)]))...)
			}
			stream = append(stream, enc(i+1, b)...)
		}
		if r.Intn(4) == 0 {
			flush()
		}
		if r.Intn(10) == 0 {
			time.Sleep(time.Duration(r.Intn(2000)) * time.Millisecond)
		}
	}
	flush()
	for k := range got {
		if k >= len(want) || !bytes.Equal(got[k], want[k]) {
			c.Fail("%v: delivered message %d is %s, want %s", names, k, short(got[k]), func() string {
				if k < len(want) {
					return short(want[k])
				}
				return "none"
			}())
		}
	}
	if len(got) != len(want) {
		c.Fail("%v: %d messages delivered, %d sent among %d control messages", names, len(got), len(want), ctl)
	}
	if cn.Closed() {
		c.Fail("%v: the connection was closed", names)
	}
	h.Count("control_messages_injected", int64(ctl))
	h.Count("application_messages", int64(len(want)))
	c.Sig(names, len(want), ctl)
	c.Logf("inject procs=%v messages=%d control=%d", names, len(want), ctl)
	N.Shut()
	time.Sleep(4 * time.Second)
	Settle()
}
