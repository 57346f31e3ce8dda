package harness

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"testing"
	"time"

	"ustack"
)

// statWire encodes and decodes what a stack [..., stat, below..., frame] has on the wire.
type statWire struct {
	sess  bool
	below []string // "hb", "lb": one tag byte each
}

func (w *statWire) wrap(atStat []byte) []byte {
	b := append([]byte(nil), atStat...)
	for _, x := range w.below {
		b = append([]byte{upTag(x)}, b...)
	}
	return frame(b)
}

func (w *statWire) app(session int, payload []byte) []byte {
	b := []byte{upTag("stat")}
	if w.sess {
		b = append(b, be32(uint32(session))...)
	}
	return w.wrap(append(b, payload...))
}

type statSeen struct {
	app       int
	requests  int
	responses []statResp
	beats     int
}

type statResp struct {
	tx, rx uint64
	name   string
}

// parse splits everything written on a connection.
func (w *statWire) parse(c *C, cn *MemConn) statSeen {
	var s statSeen
	var all []byte
	for _, b := range cn.Writes.All() {
		all = append(all, b...)
	}
next:
	for len(all) > 0 {
		if len(all) < 4 {
			c.Fail("truncated frame on the wire")
		}
		n := int(binary.BigEndian.Uint32(all))
		if len(all) < 4+n {
			c.Fail("truncated frame on the wire")
		}
		m := all[4 : 4+n]
		all = all[4+n:]
		for k := len(w.below) - 1; k >= 0; k-- {
			if len(m) == 0 {
				c.Fail("message without the tag of %s", w.below[k])
			}
			if w.below[k] == "hb" && m[0] == tagBeat {
				s.beats++
				continue next
			}
			m = m[1:]
		}
		if len(m) == 0 {
			c.Fail("message without the statistics tag")
		}
		switch m[0] {
		case tagReq:
			s.requests++
		case tagRes:
			if len(m) < 17 {
				c.Fail("statistics response of %d bytes", len(m))
			}
			s.responses = append(s.responses, statResp{binary.BigEndian.Uint64(m[1:]), binary.BigEndian.Uint64(m[9:]), string(m[17:])})
		case upTag("stat"):
			s.app++
		default:
			c.Fail("unknown statistics tag %02x on the wire", m[0])
		}
	}
	return s
}

func TestC14(t *testing.T) {
	Bubble(t, "C14", func(h *H) {
		n := h.N(160, 500)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { c14(h, c) })
		}
		for i := 0; i < h.N(2, 12); i++ {
			h.Case(fmt.Sprintf("many-%d", i), func(c *C) { c14many(h, c) })
		}
	})
}

func c14(h *H, c *C) {
	r := c.R
	w := &statWire{sess: r.Intn(3) > 0}
	procs := []ustack.DataProcessor{ustack.NewBytesCodec()}
	min := 1
	if r.Intn(3) == 0 {
		// empty messages are messages, too
		procs[0] = anyCodec()
		min = 0
	}
	if w.sess {
		procs = append(procs, ustack.NewSessionResolver())
	}
	if r.Intn(3) == 0 {
		procs = append(procs, ustack.NewFlowController())
	}
	stat := ustack.NewStatCounter()
	collect := r.Intn(3) == 0
	if collect {
		stat.SetOption("Collect.IntervalInSecond", 1+r.Intn(2))
	}
	enabled := r.Intn(4) > 0
	if !enabled {
		stat.SetEnable(false)
	}
	procs = append(procs, stat)
	for k := r.Intn(3); k > 0; k-- {
		if r.Intn(2) == 0 {
			w.below = append(w.below, "hb")
			procs = append(procs, ustack.NewHeartbeat().SetOption("TimeoutInSecond", 1000000))
		} else {
			w.below = append(w.below, "lb")
			procs = append(procs, mkHdr("lb"))
		}
	}
	procs = append(procs, ustack.NewFrameDecoder())
	neps := 1
	if w.sess {
		neps = 1 + r.Intn(5)
	}
	var eps []ustack.EndPoint
	for k := 0; k < neps; k++ {
		ep := ustack.NewEndPoint("e", k)
		ep.SetDataListener(func(ustack.EndPoint, ustack.EndPointData) {})
		eps = append(eps, ep)
	}
	name := string(randBytes(r, []int{r.Intn(60), r.Intn(60), 100 + r.Intn(300)}[r.Intn(3)]))
	N := &Node{US: ustack.NewUStack(), Tr: NewMemTransport("mem")}
	mtu := []int{512, 512, 512, 2048, 5000, 70000}[r.Intn(6)]
	N.US.SetName(name).SetOption("MTU", mtu)
	for _, p := range procs {
		N.US.AppendDataProcessor(p)
	}
	for _, e := range eps {
		N.US.AddEndPoint(e)
	}
	N.US.AddTransport(N.Tr).Run()
	var conns []*MemConn
	asked := map[*MemConn]int{}
	for k := 1 + r.Intn(5); k > 0; k-- {
		cn := NewMemConn("same")
		conns = append(conns, cn)
		N.Tr.Push(cn)
	}
	Settle()
	var tx, rx uint64
	rounds := 1 + r.Intn(4)
	conc := r.Intn(3) > 0
	for round := 0; round < rounds; round++ {
		var wg sync.WaitGroup
		var sent, fed int
		run := func(f func()) {
			if !conc {
				f()
				return
			}
			wg.Add(1)
			go func() { defer wg.Done(); f() }()
		}
		for _, ep := range eps {
			k := r.Intn(40)
			sent += k
			rr := rand.New(rand.NewSource(r.Int63()))
			run(func() {
				for ; k > 0; k-- {
					if rr.Intn(12) == 0 {
						// too long to be sent at all
						send(ep, conns[rr.Intn(len(conns))], randBytes(rr, mtu+rr.Intn(300)))
					}
					send(ep, conns[rr.Intn(len(conns))], randBytes(rr, c14len(rr, min)))
				}
			})
		}
		for _, cn := range conns {
			k := r.Intn(40)
			fed += k
			reqs := r.Intn(4)
			if enabled {
				asked[cn] += reqs
			}
			rr := rand.New(rand.NewSource(r.Int63()))
			run(func() {
				var stream []byte
				for k > 0 || reqs > 0 {
					if rr.Intn(k+reqs) < k {
						k--
						to := rr.Intn(neps)
						if rr.Intn(8) == 0 {
							to = neps + rr.Intn(1000) // nobody is there, it came through all the same
						}
						stream = append(stream, w.app(to, randBytes(rr, c14len(rr, min)))...)
					} else {
						reqs--
						stream = append(stream, w.wrap([]byte{tagReq})...)
					}
					if rr.Intn(8) == 0 {
						// a response of the peer: not application data either
						stream = append(stream, w.wrap(append([]byte{tagRes}, randBytes(rr, 16+rr.Intn(20))...))...)
					}
					if rr.Intn(3) == 0 {
						cn.FeedBytes(cut(rr, stream, 512)...)
						stream = nil
					}
				}
				cn.FeedBytes(cut(rr, stream, 512)...)
			})
		}
		wg.Wait()
		if r.Intn(3) == 0 {
			time.Sleep(time.Duration(r.Intn(5)) * time.Second)
		}
		Settle()
		for _, ep := range eps {
			if len(ep.GetTxChannel()) != 0 {
				c.Fail("a send queue is stuck")
			}
		}
		if enabled {
			tx += uint64(sent)
			rx += uint64(fed)
		}
		c.Logf("round %d enabled=%v sent=%d received=%d", round, enabled, sent, fed)
		// collect at the quiescent point
		if !enabled && (round == rounds-1 || r.Intn(2) == 0) {
			stat.SetEnable(true)
			enabled = true
		}
		if enabled {
			cn := conns[r.Intn(len(conns))]
			asked[cn]++
			cn.FeedBytes(w.wrap([]byte{tagReq}))
			Settle()
			got := w.parse(c, cn).responses
			if len(got) == 0 {
				c.Fail("a collection request was not answered")
			}
			last := got[len(got)-1]
			if last.tx != tx || last.rx != rx {
				c.Fail("round %d: counted tx=%d rx=%d, %d messages were sent and %d received", round, last.tx, last.rx, tx, rx)
			}
			if last.name != name {
				c.Fail("response carries name %q, the stack's is %q", last.name, name)
			}
			h.Count("collections", 1)
		}
		for _, cn := range conns {
			s := w.parse(c, cn)
			if len(s.responses) != asked[cn] {
				c.Fail("%d requests on a connection got %d responses on it", asked[cn], len(s.responses))
			}
			var p statResp
			for _, x := range s.responses {
				if x.tx < p.tx || x.rx < p.rx || x.tx > tx || x.rx > rx {
					c.Fail("response tx=%d rx=%d after tx=%d rx=%d, at most tx=%d rx=%d passed", x.tx, x.rx, p.tx, p.rx, tx, rx)
				}
				p = x
			}
			if collect && s.requests == 0 {
				c.Fail("collection is configured but no request was sent on a connection")
			}
			if !collect && s.requests != 0 {
				c.Fail("a collection request was sent although none is configured")
			}
		}
		if enabled && r.Intn(6) == 0 && round < rounds-1 {
			stat.SetEnable(false)
			enabled = false
		}
	}
	h.Count("messages_counted", int64(tx+rx))
	c.Sig(w.sess, w.below, neps, len(conns), tx, rx)
	N.Shut()
	time.Sleep(3 * time.Second)
	Settle()
}

// c14many: more messages than a 16-bit counter holds, driven directly through the
// processor by several goroutines.
func c14many(h *H, c *C) {
	r := c.R
	var resp []byte
	stat := ustack.NewStatCounter()
	u := NewUnit(64,
		func(ctx ustack.Context) {},
		func(ctx ustack.Context) {
			if b := content(ctx.GetBuffer()); len(b) > 0 && b[0] == tagRes {
				resp = b
			}
		}, stat)
	tx, rx := 0, 0
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		down, up := 15000+r.Intn(8000), 15000+r.Intn(8000)
		tx += down
		rx += up
		wg.Add(2)
		cn := NewMemConn("x")
		go func() {
			defer wg.Done()
			for k := 0; k < down; k++ {
				ub := ustack.UBufAllocWithHeadReserved(8, 4)
				ub.WriteByte(byte(k))
				u.Down(ustack.NewUStackContext().SetConnection(cn).SetBuffer(ub))
			}
		}()
		go func() {
			defer wg.Done()
			for k := 0; k < up; k++ {
				u.Upw(ustack.NewUStackContext().SetConnection(cn).SetBuffer(rxBuf(8, []byte{upTag("stat"), byte(k)})))
			}
		}()
	}
	wg.Wait()
	for k := 0; k < 10; k++ {
		// no room for the tag: dropped, so it did not pass
		ub := ustack.UBufAllocWithHeadReserved(8, 0)
		ub.WriteByte(byte(k))
		u.Down(ustack.NewUStackContext().SetConnection(NewMemConn("x")).SetBuffer(ub))
	}
	u.Upw(ustack.NewUStackContext().SetConnection(NewMemConn("y")).SetBuffer(rxBuf(8, []byte{tagReq})))
	if len(resp) < 17 {
		c.Fail("a collection request was not answered")
	}
	gt, gr := binary.BigEndian.Uint64(resp[1:]), binary.BigEndian.Uint64(resp[9:])
	if gt != uint64(tx) || gr != uint64(rx) {
		c.Fail("counted tx=%d rx=%d, %d messages were sent and %d received", gt, gr, tx, rx)
	}
	h.Count("messages_counted", int64(tx+rx))
	c.Logf("%d sent, %d received by 8 goroutines", tx, rx)
	c.Sig(tx, rx)
}

func c14len(r *rand.Rand, min int) int {
	if r.Intn(4) == 0 {
		return min + r.Intn(2)
	}
	return min + r.Intn(50)
}
