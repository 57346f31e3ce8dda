package harness

import (
	"bytes"
	"fmt"
	"io"
	"testing"
	"time"

	"ustack"
)

func TestC27(t *testing.T) {
	Bubble(t, "C27", func(h *H) {
		for i := 0; i < h.N(150, 2500); i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { c27(h, c) })
		}
		for i := 0; i < h.N(40, 600); i++ {
			h.Case(fmt.Sprintf("pair-%d", i), func(c *C) { c27pair(h, c) })
		}
	})
}

type pollConn struct {
	cn      *MemConn
	opened  time.Time
	ended   time.Time
	blocked bool
	reqs    Bag[time.Time]
}

func c27(h *H, c *C) {
	r := c.R
	sc := ustack.NewStatCounter()
	interval := 1 + r.Intn(5)
	var opt interface{} = interval
	switch r.Intn(8) {
	case 0:
		interval = 1 + r.Intn(3000)
		if r.Intn(2) == 0 {
			interval = 3600 * (1 + r.Intn(50))
		}
		opt = interval
	case 1:
		interval = 0
		opt = []interface{}{0, -1, "1", int64(1), 1.0, true, nil}[r.Intn(7)]
	}
	if opt != nil {
		sc.SetOption("Collect.IntervalInSecond", opt)
	}
	iv := time.Duration(interval) * time.Second
	procs := []ustack.DataProcessor{ustack.NewBytesCodec()}
	var above, below []string
	if r.Intn(2) == 0 {
		above = append(above, "sess")
		procs = append(procs, mkHdr("sess"))
	}
	procs = append(procs, sc)
	for _, x := range []string{"lb", "flow", "frame"} {
		if r.Intn(2) == 0 {
			below = append(below, x)
			procs = append(procs, mkHdr(x))
		}
	}
	req := []byte{tagReq}
	for _, x := range below {
		switch x {
		case "lb":
			req = append([]byte{upTag("lb")}, req...)
		case "frame":
			req = frame(req)
		}
	}
	ep := ustack.NewEndPoint("e", 0)
	ep.SetDataListener(func(ustack.EndPoint, ustack.EndPointData) {})
	eps := []ustack.EndPoint{ep}
	if r.Intn(3) == 0 { // nobody there
		eps = nil
	}
	N := NewNode(256, procs, eps...)
	release := make(chan struct{})
	horizon := 40 * time.Second
	long := interval > 0 && r.Intn(12) == 0
	if long { // thousands of intervals
		horizon = time.Duration(interval*(500+r.Intn(3000))) * time.Second
	} else if interval > 10 {
		horizon = time.Duration(interval*(2+r.Intn(4))) * time.Second
	}
	start := time.Now()
	ref := newChainRef(0)
	N.Tr.Push(ref)
	n := 1 + r.Intn(6)
	if !long && r.Intn(12) == 0 {
		n = 20 + r.Intn(130)
	}
	var xs []*pollConn
	var acts []hbAct
	for k := 0; k < n; k++ {
		x := &pollConn{cn: NewMemConn("same"), blocked: r.Intn(8) == 0}
		xs = append(xs, x)
		x.cn.OnWrite = func(p []byte) (int, error) {
			if bytes.Equal(p, req) {
				x.reqs.Add(time.Now())
			}
			if x.blocked {
				<-release
			}
			return len(p), nil
		}
		at := time.Duration(r.Int63n(int64(horizon) / 2))
		acts = append(acts, hbAct{at, func() { x.opened = time.Now(); N.Tr.Push(x.cn) }})
		if r.Intn(2) == 0 {
			at += time.Duration(r.Int63n(int64(horizon)/2)) + 137*time.Microsecond
			how := r.Intn(3)
			acts = append(acts, hbAct{at, func() {
				x.ended = time.Now()
				switch how {
				case 0:
					x.cn.Close()
				case 1:
					x.cn.Feed(Seg{Err: io.EOF})
				case 2:
					x.cn.Feed(Seg{Err: errGarbage})
				}
			}})
		}
		// application traffic on it
		if !x.blocked && r.Intn(2) == 0 {
			for j := r.Intn(5); j > 0; j-- {
				acts = append(acts, hbAct{at + time.Duration(r.Int63n(int64(horizon)/2)), func() { send(ep, x.cn, randBytes(r, 20)) }})
			}
		}
	}
	for len(acts) > 0 { // earliest first
		m := 0
		for k := range acts {
			if acts[k].at < acts[m].at {
				m = k
			}
		}
		time.Sleep(time.Until(start.Add(acts[m].at)))
		acts[m].fn()
		Settle()
		acts = append(acts[:m], acts[m+1:]...)
		c.Tick()
	}
	if left := time.Until(start.Add(horizon)); left > 0 {
		time.Sleep(left)
	}
	Settle()
	finish := time.Now()
	total := 0
	if ref.sent.Len() != 0 || ref.Closed() {
		c.Fail("%d objects were sent on a reference connection (closed: %v)", ref.sent.Len(), ref.Closed())
	}
	for k, x := range xs {
		got := x.reqs.All()
		total += len(got)
		if x.ended.IsZero() {
			x.ended = finish
		}
		if interval == 0 {
			if len(got) > 0 {
				c.Fail("%d collection requests although the interval is %v (%T)", len(got), opt, opt)
			}
			continue
		}
		if x.blocked {
			if len(got) != 1 {
				c.Fail("connection %d: %d requests begun on a connection whose writes are stuck", k, len(got))
			}
			continue
		}
		j := 0
		for at := x.opened; at.Before(x.ended); at = at.Add(iv) {
			if j >= len(got) || got[j].Before(at) || got[j].After(at.Add(100*time.Millisecond)) {
				if x.ended.Sub(at) < 100*time.Millisecond {
					break
				}
				when := "never"
				if j < len(got) {
					when = fmt.Sprint(got[j].Sub(x.opened))
				}
				c.Fail("interval %ds, connection %d of %d: request %d is due %v after the opening, sent %s", interval, k, n, j, at.Sub(x.opened), when)
			}
			j++
		}
		for ; j < len(got); j++ {
			c.Fail("interval %ds, connection %d: a request beyond the schedule, %v after the opening (open for %v)", interval, k, got[j].Sub(x.opened), x.ended.Sub(x.opened))
		}
	}
	h.Count("requests", int64(total))
	h.Count("connections", int64(n))
	c.Logf("interval=%v above=%v below=%v connections=%d requests=%d", opt, above, below, n, total)
	c.Sig(fmt.Sprint(opt), above, below, n, total)
	close(release)
	ref.Close()
	N.Shut()
	ep.SetDataListener(nil)
	time.Sleep(iv + time.Second)
	Settle()
}

// c27pair: two stacks poll each other beside application traffic.
func c27pair(h *H, c *C) {
	r := c.R
	var ivs [2]int
	var nodes [2]*Node
	var eps [2]ustack.EndPoint
	for k := range nodes {
		ivs[k] = r.Intn(4) // 0: does not poll
		eps[k] = ustack.NewEndPoint("e", 0)
		nodes[k] = NewNode(256, []ustack.DataProcessor{ustack.NewBytesCodec(),
			ustack.NewStatCounter().SetOption("Collect.IntervalInSecond", ivs[k]), ustack.NewFrameDecoder()}, eps[k])
	}
	a, b := Pair("a", "b", cutter(r.Int63(), 64), cutter(r.Int63(), 64))
	conns := [2]*MemConn{a, b}
	var reqs, ress, apps [2]Bag[[]byte]
	for k := range conns {
		wr := conns[k].OnWrite
		conns[k].OnWrite = func(p []byte) (int, error) {
			if len(p) > 4 {
				switch q := append([]byte(nil), p...); q[4] {
				case tagReq:
					reqs[k].Add(q)
				case tagRes:
					ress[k].Add(q)
				default:
					apps[k].Add(q)
				}
			}
			return wr(p)
		}
		nodes[k].Tr.Push(conns[k])
	}
	var sent [2][][]byte
	secs := 5 + r.Intn(60)
	for s := 0; s < secs; s++ {
		for k := range nodes {
			if r.Intn(3) == 0 {
				m := append([]byte{tagReq}, randBytes(r, 1+r.Intn(30))...)
				sent[k] = append(sent[k], m)
				send(eps[k], conns[k], m)
			}
		}
		time.Sleep(time.Second)
		c.Tick()
	}
	time.Sleep(500 * time.Millisecond)
	Settle()
	for k := range nodes {
		want := 0
		if ivs[k] > 0 {
			want = secs/ivs[k] + 1
		}
		if reqs[k].Len() != want {
			c.Fail("interval %ds: %d requests in %d.5 s", ivs[k], reqs[k].Len(), secs)
		}
		if ress[1-k].Len() != want {
			c.Fail("%d requests, %d answers", want, ress[1-k].Len())
		}
		got := drain(eps[1-k])
		if len(got) != len(sent[k]) {
			c.Fail("%d application messages sent beside the collection, %d delivered", len(sent[k]), len(got))
		}
		for j, d := range got {
			if !bytes.Equal(d.GetData().([]byte), sent[k][j]) {
				c.Fail("application message %d came as %s", j, short(d.GetData().([]byte)))
			}
		}
		h.Count("requests", int64(want))
	}
	c.Logf("intervals %v for %d s", ivs, secs)
	c.Sig(ivs, secs, len(sent[0]), len(sent[1]))
	for k := range nodes {
		nodes[k].Shut()
	}
	time.Sleep(5 * time.Second)
	Settle()
}
