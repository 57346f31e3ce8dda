package harness

import (
	"fmt"
	"io"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"ustack"
)

type hbConn struct {
	id      int
	cn      *MemConn
	plan    string
	open    time.Time
	beats   []time.Time
	ended   time.Time   // closed by the harness (zero: never)
	blocked bool        // its writes block
	stuck   atomic.Bool // its reader blocks above
	release chan struct{}
	wt      Bag[time.Time] // heartbeats written
	clt     Bag[time.Time] // close time
	helper  bool
	wire    []byte
}

type hbAct struct {
	at time.Duration
	fn func()
}

type lostAt struct {
	cn interface{}
	at time.Time
}

func TestC15(t *testing.T) {
	Bubble(t, "C15", func(h *H) {
		n := h.N(130, 400)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { c15(h, c) })
		}
		for i := 0; i < h.N(6, 60); i++ {
			h.Case(fmt.Sprintf("long-%d", i), func(c *C) { c15long(h, c) })
		}
		for i := 0; i < h.N(25, 200); i++ {
			h.Case(fmt.Sprintf("group-%d", i), func(c *C) { c15group(h, c) })
		}
	})
}

const hbSlack = 1200 * time.Millisecond

func c15(h *H, c *C) {
	r := c.R
	hb := ustack.NewHeartbeat()
	interval, timeout, closeOn := 1, 30, true
	if r.Intn(5) > 0 {
		interval = 1 + r.Intn(5)
		hb.SetOption("IntervalInSecond", interval)
	}
	if r.Intn(8) > 0 {
		timeout = 1 + r.Intn(12)
		hb.SetOption("TimeoutInSecond", timeout)
	}
	large := r.Intn(8) == 0
	if large {
		interval, timeout = 1+r.Intn(200), 31+r.Intn(400)
		hb.SetOption("IntervalInSecond", interval).SetOption("TimeoutInSecond", timeout)
	}
	if r.Intn(3) > 0 {
		closeOn = r.Intn(2) == 0
		hb.SetOption("CloseOnLost", closeOn)
	}
	to := time.Duration(timeout) * time.Second
	iv := time.Duration(interval) * time.Second
	framed := r.Intn(3) > 0
	procs := []ustack.DataProcessor{ustack.NewBytesCodec(), nil, hb}
	if framed {
		procs = append(procs, ustack.NewFrameDecoder())
	}
	msg := func(b ...byte) []byte {
		if framed {
			return frame(b)
		}
		return b
	}
	gate := NewProbe("gate")
	procs[1] = gate
	byConn := map[ustack.TransportConnection]*hbConn{}
	sync := make(chan bool, 1000)
	gate.OnLow = func(ctx ustack.Context) bool {
		x := byConn[ctx.GetConnection()]
		if x != nil && x.stuck.Load() {
			<-x.release
		}
		if x != nil && x.helper {
			select {
			case sync <- true:
			default:
			}
		}
		return true
	}
	ep := ustack.NewEndPoint("e", 0)
	ep.SetDataListener(func(ustack.EndPoint, ustack.EndPointData) {})
	var lost, lostEp Bag[lostAt]
	ep.SetEventListener(func(_ ustack.EndPoint, e ustack.Event) {
		if e.Type == ustack.UStackEventHeartbeatLost {
			lostEp.Add(lostAt{e.Data, time.Now()})
		}
	})
	N := &Node{US: ustack.NewUStack(), Tr: NewMemTransport("mem")}
	N.US.SetOption("MTU", 128)
	for _, p := range procs {
		N.US.AppendDataProcessor(p)
	}
	N.US.AddEndPoint(ep)
	N.US.AddTransport(N.Tr)
	reenter := r.Intn(3)
	var helper *hbConn
	N.US.SetEventListener(func(e ustack.Event) {
		if e.Type != ustack.UStackEventHeartbeatLost {
			return
		}
		lost.Add(lostAt{e.Data, time.Now()})
		switch reenter {
		case 1:
			x := ustack.NewEndPoint("x", 99)
			N.US.AddEndPoint(x)
			N.US.PublishEvent(ustack.Event{Type: 777})
			N.US.DeleteEndPoint(x)
			if cn, ok := e.Data.(ustack.TransportConnection); ok {
				cn.Closed()
				cn.GetName()
			}
		case 2:
			// the processor handles other connections while the event is delivered
			for len(sync) > 0 {
				<-sync
			}
			helper.cn.FeedBytes(msg(tagBeat), msg(upTag("hb"), 'x'))
			<-sync
		}
	})
	start := time.Now()
	N.US.Run()
	now := func() time.Duration { return time.Since(start) }
	_ = now
	horizon := time.Duration(20+r.Intn(60)) * time.Second
	if timeout == 30 {
		horizon += 60 * time.Second
	}
	if large {
		horizon = 3 * to
	}
	var acts []hbAct
	jit := func(d time.Duration) time.Duration {
		// never on the second, where a check could happen at the same instant
		ms := d.Milliseconds() % 1000
		if ms < 20 {
			d += 20 * time.Millisecond
		} else if ms > 980 {
			d -= 30 * time.Millisecond
		}
		return d
	}
	newConn := func(id int) *hbConn {
		x := &hbConn{id: id, cn: NewMemConn("same"), release: make(chan struct{})}
		x.cn.OnWrite = func(p []byte) (int, error) {
			if len(p) > 0 && p[len(p)-1] == tagBeat && len(p) == len(msg(tagBeat)) {
				x.wt.Add(time.Now())
			}
			if x.blocked {
				<-x.release
			}
			return len(p), nil
		}
		x.cn.OnClose = func() { x.clt.Add(time.Now()) }
		byConn[x.cn] = x
		return x
	}
	var xs []*hbConn
	n := 1 + r.Intn(6)
	if r.Intn(10) == 0 {
		n = 25
	}
	for id := 0; id < n; id++ {
		x := newConn(id)
		xs = append(xs, x)
		t := jit(time.Duration(r.Intn(5000)) * time.Millisecond)
		if r.Intn(12) == 0 {
			x.blocked = true
		}
		acts = append(acts, hbAct{t, func() { x.open = time.Now(); N.Tr.Push(x.cn) }})
		beat := func(at time.Duration) {
			style := r.Intn(3)
			acts = append(acts, hbAct{at, func() {
				x.beats = append(x.beats, time.Now())
				if style == 0 {
					// with neighbours in one segment, or with trailing bytes
					x.cn.FeedBytes(append(msg(upTag("hb"), 'a'), append(msg(tagBeat, 1, 2), msg(upTag("hb"), 'b')...)...))
					if !framed {
						x.cn.FeedBytes(msg(tagBeat))
					}
				} else {
					x.cn.FeedBytes(msg(tagBeat))
				}
			}})
		}
		end := func(at time.Duration) {
			how := r.Intn(4)
			acts = append(acts, hbAct{at, func() {
				x.ended = time.Now()
				switch how {
				case 0:
					x.cn.Close()
				case 1:
					x.cn.Feed(Seg{Err: io.EOF})
				case 2:
					x.cn.Feed(Seg{Err: errGarbage})
				case 3:
					// the reader is stuck when it is closed
					x.stuck.Store(true)
					x.cn.FeedBytes(msg(upTag("hb"), 'z'))
					Settle()
					x.cn.Close()
				}
			}})
		}
		steady := r.Intn(3) == 0
		silent := time.Duration(0)
		for t < horizon {
			k := r.Intn(10)
			switch {
			case steady || k < 6:
				// a gap just or well below the timeout
				g := to - 25*time.Millisecond
				if r.Intn(3) > 0 {
					g = time.Duration(r.Int63n(int64(to)-int64(20*time.Millisecond))) + time.Millisecond
				}
				if g > to-25*time.Millisecond {
					g = to - 25*time.Millisecond
				}
				u := jit(t + g)
				if u-t >= to-5*time.Millisecond {
					u -= 60 * time.Millisecond
				}
				t = u
				beat(t)
			case k < 9:
				// silence (application data does not count as heartbeat)
				g := to + hbSlack + time.Duration(500+r.Intn(20000))*time.Millisecond
				for d := time.Duration(0); d < g; d += time.Duration(300+r.Intn(3000)) * time.Millisecond {
					acts = append(acts, hbAct{jit(t + d), func() { x.cn.FeedBytes(msg(upTag("hb"), tagBeat)) }})
				}
				silent += g
				t = jit(t + g)
				if r.Intn(4) == 0 {
					end(t)
					t = horizon * 10
				} else {
					beat(t)
				}
			default:
				t = jit(t + time.Duration(r.Int63n(int64(to)))*9/10)
				end(t)
				t = horizon * 10
			}
		}
		if t < horizon*5 && r.Intn(2) == 0 {
			end(jit(t + to/2))
		}
	}
	// events that mean nothing to the processor, about connections it watches
	for k := r.Intn(6); k > 0; k-- {
		x := xs[r.Intn(len(xs))]
		typ := []int{100, 777, -1, ustack.UStackEventHeartbeatRecover}[r.Intn(4)]
		acts = append(acts, hbAct{jit(5*time.Second + time.Duration(r.Int63n(int64(horizon)))), func() {
			N.US.PublishEvent(ustack.Event{Type: typ, Source: x.cn, Data: x.cn})
		}})
	}
	// helper: never silent
	helper = newConn(-1)
	helper.helper = true
	for t := 50 * time.Millisecond; t < horizon*4; t += to / 3 {
		first := t == 50*time.Millisecond
		acts = append(acts, hbAct{jit(t), func() {
			if first {
				helper.open = time.Now()
				N.Tr.Push(helper.cn)
				Settle()
			}
			helper.beats = append(helper.beats, time.Now())
			helper.cn.FeedBytes(msg(tagBeat))
		}})
	}
	sort.SliceStable(acts, func(i, j int) bool { return acts[i].at < acts[j].at })
	stopAt := horizon + to + hbSlack + time.Second
	for _, a := range acts {
		if a.at > stopAt {
			break
		}
		time.Sleep(time.Until(start.Add(a.at)))
		Settle()
		a.fn()
		c.Tick()
	}
	time.Sleep(time.Until(start.Add(stopAt)))
	Settle()
	finish := time.Now()
	all := lost.All()
	if le := lostEp.All(); len(le) != len(all) {
		c.Fail("the stack listener saw %d heartbeat-lost events, the endpoint %d", len(all), len(le))
	}
	rel := func(t time.Time) float64 { return t.Sub(start).Seconds() }
	total, silentN := 0, 0
	for _, x := range append(xs, helper) {
		if x.open.IsZero() {
			continue
		}
		var got []time.Time
		for _, l := range all {
			if l.cn == interface{}(x.cn) {
				got = append(got, l.at)
			}
		}
		total += len(got)
		// expected episodes
		last := x.open
		end := finish
		if !x.ended.IsZero() {
			end = x.ended
		}
		pts := append([]time.Time(nil), x.beats...)
		pts = append(pts, end)
		gi := 0
		closedByHb := false
		for _, p := range pts {
			if p.After(end) {
				break
			}
			due := last.Add(to)
			if p.Before(due) {
				if gi < len(got) && got[gi].Before(p) {
					c.Fail("connection %d (timeout %ds) reported lost at %.3f although heartbeats came at %.3f and %.3f", x.id, timeout, rel(got[gi]), rel(last), rel(p))
				}
			} else if p == end && end == finish && finish.Before(due.Add(hbSlack)) {
				// the run ended within the tolerance
				if gi < len(got) {
					if got[gi].Before(due) {
						c.Fail("connection %d silent since %.3f (timeout %ds) was reported lost at %.3f", x.id, rel(last), timeout, rel(got[gi]))
					}
					gi++
				}
			} else {
				silentN++
				if gi >= len(got) {
					c.Fail("connection %d was silent from %.3f to %.3f (timeout %ds) and not reported lost", x.id, rel(last), rel(p), timeout)
				}
				if got[gi].Before(due) || got[gi].After(due.Add(hbSlack)) {
					c.Fail("connection %d silent since %.3f (timeout %ds) was reported lost at %.3f", x.id, rel(last), timeout, rel(got[gi]))
				}
				if closeOn {
					closedByHb = true
					if cl := x.clt.All(); len(cl) != 1 || cl[0].Before(due) || cl[0].After(due.Add(hbSlack)) {
						c.Fail("connection %d was reported lost at %.3f but not closed (%d closes)", x.id, rel(got[gi]), len(cl))
					}
				}
				gi++
				if closeOn {
					break
				}
			}
			last = p
		}
		if gi != len(got) {
			c.Fail("connection %d: %d lost reports, %d silent episodes (extra one at %.3f, ended %.3f)", x.id, len(got), gi, rel(got[gi]), rel(end))
		}
		if !closedByHb && x.ended.IsZero() && len(x.clt.All()) != 0 && !(closeOn && gi > 0) {
			c.Fail("connection %d was closed at %.3f, nobody asked for it (close-on-lost %v, %d lost)", x.id, rel(x.clt.All()[0]), closeOn, gi)
		}
		// heartbeats sent
		if x.blocked {
			continue
		}
		until := finish
		if cl := x.clt.All(); len(cl) > 0 {
			until = cl[0]
		}
		w := x.wt.All()
		if len(w) == 0 || w[0].Sub(x.open) > 50*time.Millisecond {
			c.Fail("connection %d: no heartbeat was sent when it opened (%d sent)", x.id, len(w))
		}
		for k := 1; k < len(w); k++ {
			if g := w[k].Sub(w[k-1]); g < iv*8/10 || g > iv*12/10 {
				c.Fail("connection %d: heartbeats sent with a gap of %v, the interval is %v", x.id, g, iv)
			}
		}
		if tail := until.Sub(w[len(w)-1]); tail > iv*12/10 {
			c.Fail("connection %d: no heartbeat sent in the last %v it was open, the interval is %v", x.id, tail, iv)
		}
		h.Count("heartbeats_sent_seen", int64(len(w)))
	}
	if total != len(all) {
		c.Fail("%d lost reports, %d of them about known connections", len(all), total)
	}
	h.Count("lost_reports", int64(len(all)))
	h.Count("silent_episodes", int64(silentN))
	c.Sig(interval, timeout, closeOn, framed, n, reenter, len(acts))
	c.Logf("interval=%d timeout=%d close=%v framed=%v conns=%d actions=%d lost=%d", interval, timeout, closeOn, framed, n, len(acts), len(all))
	for _, x := range xs {
		close(x.release)
	}
	N.Shut()
	time.Sleep(iv + 6*time.Second)
	Settle()
}

// c15group: many connections fall silent in the same second, some of them closed
// by then while their readers are stuck.
func c15group(h *H, c *C) {
	r := c.R
	interval, timeout := 5+r.Intn(20), 2+r.Intn(3)
	closeOn := r.Intn(2) == 0
	hb := ustack.NewHeartbeat().SetOption("IntervalInSecond", interval).
		SetOption("TimeoutInSecond", timeout).SetOption("CloseOnLost", closeOn)
	gate := NewProbe("gate")
	release := make(chan struct{})
	gate.OnLow = func(ustack.Context) bool { <-release; return true }
	N := NewNode(128, []ustack.DataProcessor{ustack.NewBytesCodec(), gate, hb, ustack.NewFrameDecoder()}, ustack.NewEndPoint("e", 0))
	time.Sleep(time.Duration(20+r.Intn(900)) * time.Millisecond)
	var cns []*MemConn
	n := 2 + r.Intn(20)
	if r.Intn(3) == 0 {
		n = 30 + r.Intn(270)
	}
	for k := 0; k < n; k++ {
		cn := NewMemConn("same")
		cns = append(cns, cn)
		N.Tr.Push(cn)
	}
	Settle()
	time.Sleep(time.Duration(r.Intn(timeout*1000-100)) * time.Millisecond)
	gone := map[int]bool{}
	for k, cn := range cns {
		if r.Intn(3) == 0 {
			gone[k] = true
			cn.FeedBytes(frame([]byte{upTag("hb"), 'z'}))
			Settle()
			cn.Close()
		}
	}
	time.Sleep(time.Duration(timeout+2) * time.Second)
	Settle()
	for k, cn := range cns {
		want := 1
		if gone[k] {
			want = 0
		}
		if got := N.EventsFor(ustack.UStackEventHeartbeatLost, ustack.TransportConnection(cn)); got != want {
			c.Fail("%d connections silent at once, %d of them closed before: connection %d (closed: %v) has %d lost reports", n, len(gone), k, gone[k], got)
		}
		if cn.Closed() != (gone[k] || closeOn) {
			c.Fail("connection %d (close-on-lost %v): closed is %v", k, closeOn, cn.Closed())
		}
	}
	h.Count("lost_reports", int64(n-len(gone)))
	h.Count("silent_episodes", int64(n-len(gone)))
	c.Sig(interval, timeout, closeOn, n, len(gone))
	c.Logf("interval=%d timeout=%d close=%v connections=%d closed before=%d", interval, timeout, closeOn, n, len(gone))
	close(release)
	N.Shut()
	time.Sleep(time.Duration(interval+2) * time.Second)
	Settle()
}

// Two stacks watching each other: nothing is lost until one falls silent.
func TestC15pair(t *testing.T) {
	Bubble(t, "C15pair", func(h *H) {
		n := h.N(40, 120)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				r := c.R
				iv := 1 + r.Intn(3)
				to := iv + 1 + r.Intn(5)
				closeOn := r.Intn(2) == 0
				mk := func() *Node {
					return NewNode(128, []ustack.DataProcessor{ustack.NewBytesCodec(),
						ustack.NewHeartbeat().SetOption("IntervalInSecond", iv).SetOption("TimeoutInSecond", to).SetOption("CloseOnLost", closeOn),
						ustack.NewFrameDecoder()}, ustack.NewEndPoint("e", 0))
				}
				S := mk()
				var cls []*Node
				var cc, sc []*MemConn
				mute := make([]atomic.Bool, 5)
				k := 1 + r.Intn(4)
				for i := 0; i < k; i++ {
					x := mk()
					time.Sleep(time.Duration(r.Intn(1500)) * time.Millisecond)
					a, b := Pair("c", "s", cutter(r.Int63(), 128), cutter(r.Int63(), 128))
					wr := a.OnWrite
					a.OnWrite = func(p []byte) (int, error) {
						if mute[i].Load() {
							return len(p), nil
						}
						return wr(p)
					}
					S.Tr.Push(b)
					x.Tr.Push(a)
					cls, cc, sc = append(cls, x), append(cc, a), append(sc, b)
				}
				time.Sleep(time.Duration(100+r.Intn(400)) * time.Second)
				Settle()
				for i := range cls {
					for _, e := range append(S.Events.All(), cls[i].Events.All()...) {
						if e.Type == ustack.UStackEventHeartbeatLost || e.Type == ustack.UStackEventConnectionClosed {
							c.Fail("event %d although heartbeats were exchanged every %ds with timeout %ds", e.Type, iv, to)
						}
					}
					if cc[i].Closed() || sc[i].Closed() {
						c.Fail("a connection was closed")
					}
				}
				victim := r.Intn(k)
				mute[victim].Store(true)
				time.Sleep(time.Duration(to+2)*time.Second + time.Duration(iv)*time.Second)
				Settle()
				for i := range cls {
					want := 0
					if i == victim {
						want = 1
					}
					if n := S.EventsFor(ustack.UStackEventHeartbeatLost, sc[i]); n != want {
						c.Fail("connection %d (silent: %v): %d lost reports", i, i == victim, n)
					}
					if sc[i].Closed() != (i == victim && closeOn) {
						c.Fail("connection %d (silent: %v, close-on-lost %v): closed is %v", i, i == victim, closeOn, sc[i].Closed())
					}
					if n := cls[i].EventsFor(ustack.UStackEventHeartbeatLost, cc[i]); n != 0 {
						c.Fail("client %d reported its server lost", i)
					}
				}
				h.Count("lost_reports", 1)
				c.Sig(iv, to, closeOn, k, victim)
				c.Logf("interval=%d timeout=%d close=%v clients=%d silent=%d", iv, to, closeOn, k, victim)
				S.Shut()
				for _, x := range cls {
					x.Shut()
				}
				time.Sleep(4 * time.Second)
				Settle()
			})
		}
	})
}

// c15long: thousands of intervals, and many silent episodes, on one connection.
func c15long(h *H, c *C) {
	r := c.R
	iv := 1 + r.Intn(3)
	to := 2 + r.Intn(20)
	hb := ustack.NewHeartbeat().SetOption("IntervalInSecond", iv).SetOption("TimeoutInSecond", to).SetOption("CloseOnLost", false)
	N := NewNode(128, []ustack.DataProcessor{ustack.NewBytesCodec(), hb, ustack.NewFrameDecoder()}, ustack.NewEndPoint("e", 0))
	cn := NewMemConn("x")
	var sent []time.Time
	var mu sync.Mutex
	cn.OnWrite = func(p []byte) (int, error) {
		mu.Lock()
		sent = append(sent, time.Now())
		mu.Unlock()
		return len(p), nil
	}
	start := time.Now()
	N.Tr.Push(cn)
	Settle()
	end := start.Add(time.Duration(iv*(1000+r.Intn(2000))) * time.Second)
	episodes := 1
	if r.Intn(2) == 0 {
		// heartbeats with short gaps most of the time
		episodes = 0
	}
	chatty := episodes == 0
	time.Sleep(time.Duration(r.Intn(to*800)) * time.Millisecond)
	if !chatty {
		time.Sleep(time.Duration(to+2) * time.Second)
	}
	for time.Now().Before(end) {
		cn.FeedBytes(frame([]byte{tagBeat}))
		if chatty && r.Intn(20) > 0 {
			time.Sleep(time.Duration(1+r.Intn(to*900)) * time.Millisecond)
		} else {
			time.Sleep(time.Duration(to+2)*time.Second + time.Duration(r.Intn(to*1000))*time.Millisecond)
			if r.Intn(200) == 0 { // and stays silent for hours
				time.Sleep(time.Duration(r.Intn(10*3600)) * time.Second)
			}
			episodes++
		}
		if got := N.EventsFor(ustack.UStackEventHeartbeatLost, ustack.TransportConnection(cn)); got != episodes {
			c.Fail("%v after the opening: %d lost reports after %d silent episodes (timeout %ds)", time.Since(start), got, episodes, to)
		}
		c.Tick()
	}
	Settle()
	if cn.Closed() {
		c.Fail("the connection was closed")
	}
	mu.Lock()
	for k, at := range sent {
		if want := start.Add(time.Duration(k*iv) * time.Second); at.Sub(want) > 100*time.Millisecond || want.Sub(at) > 100*time.Millisecond {
			c.Fail("heartbeat %d was sent %v after the opening, interval %ds", k, at.Sub(start), iv)
		}
	}
	if want := int(time.Since(start)/(time.Duration(iv)*time.Second)) + 1; len(sent) < want-1 || len(sent) > want {
		c.Fail("%d heartbeats sent in %v, interval %ds", len(sent), time.Since(start), iv)
	}
	h.Count("heartbeats_sent_seen", int64(len(sent)))
	mu.Unlock()
	h.Count("lost_reports", int64(episodes))
	h.Count("silent_episodes", int64(episodes))
	c.Sig("long", iv, to, episodes)
	c.Logf("long: interval=%d timeout=%d episodes=%d over %v", iv, to, episodes, time.Since(start))
	N.Shut()
	time.Sleep(time.Duration(iv+2) * time.Second)
	Settle()
}
