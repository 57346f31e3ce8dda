package harness

import (
	"fmt"
	"math"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"

	"ustack"
)

// c20ev is one publication: by the harness or by a call of the library.
type c20ev struct {
	id     int64
	owner  int
	typ    int
	data   interface{}
	source interface{} // of a published event
	s, e   int64       // logical time before and after
	// done by the chosen party when it sees the event
	react   func()
	reactor *c20party
	reacted bool
}

type c20reg struct{ from0, from1, to0, to1 int64 }

type c20seen struct {
	at int64
	ev ustack.Event
}

// c20party is one registered observer.
type c20party struct {
	what string
	ep   ustack.EndPoint
	regs []*c20reg
	log  Bag[c20seen]
}

type c20run struct {
	us    ustack.UStack
	clock int64
	ids   int64
	bad   atomic.Value
	pend  sync.Map // reactions to events published by the library
}

type c20key struct {
	typ  int
	data interface{}
}

func (x *c20run) now() int64 { return atomic.AddInt64(&x.clock, 1) }

func (x *c20run) see(p *c20party, e ustack.Event) {
	p.log.Add(c20seen{x.now(), e})
	v, ok := e.Data.(*c20ev)
	if !ok {
		if y, found := x.pend.Load(c20key{e.Type, e.Data}); found {
			v = y.(*c20ev)
		}
	}
	if v != nil && v.reactor == p && !v.reacted {
		v.reacted = true
		v.react()
	}
}

// c20worker is one goroutine's share of the objects.
type c20worker struct {
	x       *c20run
	id      int
	r       *rand.Rand
	eps     []*c20party // present
	out     []*c20party // absent
	trIn    []*MemTransport
	trOut   []*MemTransport
	parties []*c20party
	events  []*c20ev
	depth   int
	nested  int
	redund  int
}

func (w *c20worker) pub(typ int, data interface{}, call func()) {
	v := &c20ev{owner: w.id, typ: typ, data: data}
	w.reaction(v)
	k := c20key{typ, data}
	old, had := w.x.pend.Load(k)
	w.x.pend.Store(k, v)
	v.s = w.x.now()
	call()
	v.e = w.x.now()
	w.x.pend.Delete(k)
	if had {
		w.x.pend.Store(k, old)
	}
	w.events = append(w.events, v)
}

// reaction lets some party act when it sees the event.
func (w *c20worker) reaction(v *c20ev) {
	if w.depth < 2 && w.r.Intn(3) == 0 && len(w.parties) > 0 {
		v.reactor = w.parties[w.r.Intn(len(w.parties))]
		v.react = func() {
			w.depth++
			w.nested++
			for k := 1 + w.r.Intn(2); k > 0; k-- {
				w.step()
			}
			w.depth--
		}
	}
}

var libEvents = []int{ustack.UStackEventNewConnection, ustack.UStackEventConnectionClosed,
	ustack.UStackEventEndpointAdded, ustack.UStackEventEndpointDeleted,
	ustack.UStackEventTransportAdded, ustack.UStackEventTransportDeleted}

func (w *c20worker) publish() {
	v := &c20ev{id: atomic.AddInt64(&w.x.ids, 1), owner: w.id, typ: 1000 + w.r.Intn(5)}
	if w.r.Intn(8) == 0 {
		v.typ = w.r.Intn(1 << 30)
	}
	if w.r.Intn(8) == 0 {
		// a type of the library, about something else
		v.typ = libEvents[w.r.Intn(len(libEvents))]
	}
	v.data = v
	w.reaction(v)
	v.s = w.x.now()
	// an event may come from a party itself, or from nowhere
	var source interface{} = v
	switch n := w.r.Intn(8); {
	case n < 3 && len(w.eps) > 0:
		source = w.eps[w.r.Intn(len(w.eps))].ep
	case n == 3 && len(w.trIn) > 0:
		source = w.trIn[w.r.Intn(len(w.trIn))]
	case n == 4:
		source = w.x.us
	case n == 5:
		source = nil
	}
	v.source = source
	w.x.us.PublishEvent(ustack.Event{Type: v.typ, Source: source, Data: v})
	v.e = w.x.now()
	w.events = append(w.events, v)
}

func (w *c20worker) newEP() *c20party {
	p := &c20party{what: fmt.Sprintf("endpoint %d of worker %d", len(w.parties), w.id)}
	p.ep = ustack.NewEndPoint(p.what, w.r.Intn(4))
	p.ep.SetEventListener(func(ep ustack.EndPoint, e ustack.Event) {
		if ep != p.ep {
			w.x.bad.Store("an endpoint's listener was called with another endpoint")
		}
		w.x.see(p, e)
	})
	w.parties = append(w.parties, p)
	return p
}

func (w *c20worker) addEP(p *c20party) {
	g := &c20reg{from0: w.x.now()}
	p.regs = append(p.regs, g)
	w.eps = append(w.eps, p)
	w.pub(ustack.UStackEventEndpointAdded, p.ep, func() { w.x.us.AddEndPoint(p.ep) })
	g.from1 = w.x.now()
}

func (w *c20worker) delEP(i int) {
	p := w.eps[i]
	w.eps = append(append([]*c20party(nil), w.eps[:i]...), w.eps[i+1:]...)
	w.out = append(w.out, p)
	g := p.regs[len(p.regs)-1]
	g.to0 = w.x.now()
	w.pub(ustack.UStackEventEndpointDeleted, p.ep, func() { w.x.us.DeleteEndPoint(p.ep) })
	g.to1 = w.x.now()
}

func (w *c20worker) listener() {
	p := &c20party{what: fmt.Sprintf("stack listener %d of worker %d", len(w.parties), w.id)}
	w.parties = append(w.parties, p)
	g := &c20reg{from0: w.x.now()}
	p.regs = append(p.regs, g)
	w.x.us.SetEventListener(func(e ustack.Event) { w.x.see(p, e) })
	g.from1 = w.x.now()
}

func (w *c20worker) feature() {
	p := &c20party{what: fmt.Sprintf("feature %d of worker %d", len(w.parties), w.id)}
	w.parties = append(w.parties, p)
	g := &c20reg{from0: w.x.now()}
	p.regs = append(p.regs, g)
	f := NewFeat(p.what)
	f.OnEv = func(e ustack.Event) { w.x.see(p, e) }
	w.x.us.AddFeature(f)
	g.from1 = w.x.now()
}

func (w *c20worker) step() {
	us := w.x.us
	switch k := w.r.Intn(24); {
	case k < 9:
		w.publish()
	case k < 11:
		w.addEP(w.newEP())
	case k < 14:
		if len(w.eps) > 0 {
			w.delEP(w.r.Intn(len(w.eps)))
		}
	case k < 16:
		if len(w.out) > 0 {
			i := w.r.Intn(len(w.out))
			p := w.out[i]
			w.out = append(append([]*c20party(nil), w.out[:i]...), w.out[i+1:]...)
			w.addEP(p)
		}
	case k < 17:
		w.listener()
	case k < 18:
		w.feature()
	case k < 20:
		// calls without effect publish nothing. In a reaction the object may be
		// on its way in or out: only when nothing is going on.
		if w.depth > 0 {
			return
		}
		w.redund++
		switch w.r.Intn(4) {
		case 0:
			if len(w.eps) > 0 {
				us.AddEndPoint(w.eps[w.r.Intn(len(w.eps))].ep)
			}
		case 1:
			if len(w.out) > 0 {
				us.DeleteEndPoint(w.out[w.r.Intn(len(w.out))].ep)
			} else {
				us.DeleteEndPoint(ustack.NewEndPoint("never added", 1))
			}
		case 2:
			if len(w.trIn) > 0 {
				us.AddTransport(w.trIn[w.r.Intn(len(w.trIn))])
			}
		case 3:
			if len(w.trOut) > 0 {
				us.DeleteTransport(w.trOut[w.r.Intn(len(w.trOut))])
			} else {
				us.DeleteTransport(NewMemTransport("never added"))
			}
		}
	case k < 22:
		if len(w.trIn) < 3 {
			var tr *MemTransport
			if len(w.trOut) > 0 && w.r.Intn(2) == 0 {
				i := w.r.Intn(len(w.trOut))
				tr = w.trOut[i]
				w.trOut = append(append([]*MemTransport(nil), w.trOut[:i]...), w.trOut[i+1:]...)
			} else {
				tr = NewMemTransport("t")
			}
			w.trIn = append(w.trIn, tr)
			w.pub(ustack.UStackEventTransportAdded, tr, func() { us.AddTransport(tr) })
		}
	default:
		if len(w.trIn) > 0 {
			i := w.r.Intn(len(w.trIn))
			tr := w.trIn[i]
			w.trIn = append(append([]*MemTransport(nil), w.trIn[:i]...), w.trIn[i+1:]...)
			w.trOut = append(w.trOut, tr)
			w.pub(ustack.UStackEventTransportDeleted, tr, func() { us.DeleteTransport(tr) })
		}
	}
}

// c20judge compares every party's log with the publications.
func c20judge(h *H, c *C, ws []*c20worker, extra []*c20party) {
	var evs []*c20ev
	var parties []*c20party
	for _, w := range ws {
		evs = append(evs, w.events...)
		parties = append(parties, w.parties...)
	}
	parties = append(parties, extra...)
	byKey := map[c20key][]*c20ev{}
	for _, v := range evs {
		k := c20key{v.typ, v.data}
		byKey[k] = append(byKey[k], v)
	}
	name := func(v *c20ev) string {
		if v.id > 0 {
			return fmt.Sprintf("event %d of goroutine %d", v.id, v.owner)
		}
		return fmt.Sprintf("event of type %d about %v by goroutine %d", v.typ, c20about(v.data), v.owner)
	}
	for _, p := range parties {
		count := map[*c20ev]int{}
		maxS := map[int]int64{}
		last := map[int]*c20ev{}
		var lastEvs int64
		for _, s := range p.log.All() {
			switch s.ev.Type {
			case ustack.UStackEventEndpointAdded, ustack.UStackEventEndpointDeleted,
				ustack.UStackEventTransportAdded, ustack.UStackEventTransportDeleted,
				ustack.UStackEventNewConnection, ustack.UStackEventConnectionClosed:
			default:
				if _, ok := s.ev.Data.(*c20ev); !ok {
					continue
				}
			}
			var v *c20ev
			for _, x := range byKey[c20key{s.ev.Type, s.ev.Data}] {
				// of nested calls with the same object the innermost
				if x.s < s.at && s.at < x.e && (v == nil || x.s > v.s) {
					v = x
				}
			}
			if v == nil {
				c.Fail("%s saw an event of type %d about %v that no call published at that time", p.what, s.ev.Type, c20about(s.ev.Data))
			}
			if v.id > 0 && s.ev.Source != v.source {
				c.Fail("%s saw %s with another source", p.what, name(v))
			}
			count[v]++
			if count[v] > 1 {
				c.Fail("%s saw %s %d times", p.what, name(v), count[v])
			}
			if v.e < maxS[v.owner] {
				c.Fail("%s saw %s after %s, which was published later", p.what, name(v), name(last[v.owner]))
			}
			if v.s > maxS[v.owner] {
				maxS[v.owner], last[v.owner] = v.s, v
			}
			lastEvs++
		}
		h.Count("deliveries_checked", lastEvs)
		for _, v := range evs {
			must, may := false, false
			for _, g := range p.regs {
				to0, to1 := g.to0, g.to1
				if to0 == 0 {
					to0 = math.MaxInt64
				}
				if to1 == 0 {
					to1 = math.MaxInt64
				}
				if g.from1 != 0 && g.from1 < v.s && to0 > v.e {
					must = true
				}
				if g.from0 < v.e && to1 > v.s {
					may = true
				}
			}
			if p.ep != nil && v.data == interface{}(p.ep) {
				must = false
			}
			if must && count[v] == 0 {
				c.Fail("%s did not see %s", p.what, name(v))
			}
			if !may && count[v] > 0 {
				c.Fail("%s saw %s although it was not registered", p.what, name(v))
			}
		}
	}
	h.Count("events_published", int64(len(evs)))
	h.Max("max_parties", int64(len(parties)))
}

func c20about(d interface{}) string {
	switch v := d.(type) {
	case *c20ev:
		return fmt.Sprintf("event %d", v.id)
	case ustack.EndPoint:
		return v.GetName()
	case *MemTransport:
		return fmt.Sprintf("transport %p", v)
	}
	return fmt.Sprintf("%T", d)
}

func c20stack(c *C) (*c20run, []*c20party) {
	x := &c20run{us: ustack.NewUStack()}
	var extra []*c20party
	many := c.R.Intn(5)
	if c.R.Intn(12) == 0 {
		many = 20 + c.R.Intn(60)
	}
	for k := many; k > 0; k-- {
		if c.R.Intn(3) == 0 {
			x.us.AppendDataProcessor([]func() ustack.DataProcessor{ustack.NewFrameDecoder, ustack.NewStatCounter,
				ustack.NewFlowController, ustack.NewBytesCodec, ustack.NewLoadBalancer}[c.R.Intn(5)]())
			continue
		}
		p := &c20party{what: fmt.Sprintf("processor %d", k)}
		g := &c20reg{from0: x.now()}
		p.regs = append(p.regs, g)
		pr := NewProbe(p.what)
		pr.OnEv = func(e ustack.Event) { x.see(p, e) }
		x.us.AppendDataProcessor(pr)
		g.from1 = x.now()
		extra = append(extra, p)
	}
	return x, extra
}

func (x *c20run) worker(id int, seed int64) *c20worker {
	return &c20worker{x: x, id: id, r: rand.New(rand.NewSource(seed))}
}

// shut removes what is left (not judged).
func (x *c20run) shut() {
	for _, t := range x.us.GetTransport() {
		x.us.DeleteTransport(t)
	}
	for _, e := range x.us.GetEndPoint() {
		x.us.DeleteEndPoint(e)
	}
}

func c20end(c *C, x *c20run) {
	if s, ok := x.bad.Load().(string); ok {
		c.Fail("%s", s)
	}
}

func TestC20(t *testing.T) {
	Bubble(t, "C20", func(h *H) {
		for i := 0; i < h.N(20, 400); i++ {
			h.Case(fmt.Sprintf("repeat-%d", i), c20repeat)
		}
		for i := 0; i < h.N(400, 8000); i++ {
			h.Case(fmt.Sprintf("seq-%d", i), func(c *C) {
				x, extra := c20stack(c)
				w := x.worker(0, c.R.Int63())
				w.parties = append(w.parties, extra...)
				other := ustack.NewUStack()
				var foreign int64
				other.SetEventListener(func(e ustack.Event) { atomic.AddInt64(&foreign, 1) })
				w.listener()
				if c.R.Intn(12) == 0 {
					for k := 20 + c.R.Intn(60); k > 0; k-- {
						switch c.R.Intn(4) {
						case 0:
							w.listener()
						case 1:
							w.feature()
						default:
							w.addEP(w.newEP())
						}
					}
				}
				pre := c.R.Intn(12)
				for k := 0; k < pre; k++ {
					w.step()
				}
				other.Run()
				x.us.Run()
				steps := 10 + c.R.Intn(60)
				for k := 0; k < steps; k++ {
					if c.R.Intn(12) == 0 && len(w.trIn) > 0 {
						w.conn(c)
						continue
					}
					w.step()
				}
				Settle()
				w.parties = w.parties[len(extra):]
				c20judge(h, c, []*c20worker{w}, extra)
				if foreign != 0 {
					c.Fail("a listener of another stack saw %d events", foreign)
				}
				h.Count("reactions", int64(w.nested))
				h.Count("calls_without_effect", int64(w.redund))
				c.Sig(len(w.events), len(w.parties), w.nested, steps)
				c.Logf("%d processors, %d steps, %d publications, %d parties, %d reactions", len(extra), steps, len(w.events), len(w.parties), w.nested)
				x.shut()
				Settle()
				c20end(c, x)
			})
		}
	})
}

// conn lets one connection come and go: an event for each at everybody.
func (w *c20worker) conn(c *C) {
	cn := NewMemConn("c")
	Settle()
	w.depth += 10 // published by a goroutine of the stack: no reaction
	defer func() { w.depth -= 10 }()
	w.pub(ustack.UStackEventNewConnection, cn, func() {
		w.trIn[w.r.Intn(len(w.trIn))].Push(cn)
		Settle()
	})
	w.pub(ustack.UStackEventConnectionClosed, cn, func() {
		cn.Close()
		Settle()
	})
	var seen [2]int
	for _, p := range w.parties {
		g := p.regs[len(p.regs)-1]
		if g.from1 == 0 || g.to0 != 0 {
			continue
		}
		seen = [2]int{}
		for _, s := range p.log.All() {
			if s.ev.Data != interface{}(cn) {
				continue
			}
			if s.ev.Type == ustack.UStackEventNewConnection {
				seen[0]++
			}
			if s.ev.Type == ustack.UStackEventConnectionClosed {
				seen[1]++
			}
		}
		if seen != [2]int{1, 1} {
			c.Fail("%s saw %d new and %d closed events of a connection that came and went", p.what, seen[0], seen[1])
		}
	}
}

func TestC20conc(t *testing.T) {
	Bubble(t, "C20conc", func(h *H) {
		for i := 0; i < h.N(120, 1500); i++ {
			h.Case(fmt.Sprintf("conc-%d", i), func(c *C) {
				x, extra := c20stack(c)
				n := 2 + c.R.Intn(5)
				var ws []*c20worker
				for k := 0; k < n; k++ {
					ws = append(ws, x.worker(k, c.R.Int63()))
				}
				ws[0].listener()
				for k := 0; k < 6; k++ {
					ws[0].step()
				}
				x.us.Run()
				steps := 10 + c.R.Intn(30)
				var wg sync.WaitGroup
				for _, w := range ws {
					wg.Add(1)
					go func() {
						defer wg.Done()
						for k := 0; k < steps; k++ {
							w.step()
						}
					}()
				}
				wg.Wait()
				Settle()
				c20judge(h, c, ws, extra)
				nested := 0
				for _, w := range ws {
					nested += w.nested
				}
				h.Count("reactions", int64(nested))
				c.Sig(n, steps, len(ws[0].events), nested)
				c.Logf("%d goroutines x %d steps, %d reactions", n, steps, nested)
				c20same(h, c, x)
				x.shut()
				Settle()
				c20end(c, x)
			})
		}
	})
}

// c20same: goroutines add and remove the same object at the same moment.
func c20same(h *H, c *C, x *c20run) {
	var log Bag[ustack.Event]
	x.us.SetEventListener(func(e ustack.Event) { log.Add(e) })
	together := func(f func()) {
		start := make(chan struct{})
		var wg sync.WaitGroup
		for k := 2 + c.R.Intn(4); k > 0; k-- {
			wg.Add(1)
			go func() { defer wg.Done(); <-start; f() }()
		}
		Settle()
		close(start)
		wg.Wait()
	}
	count := func(what string, typ int, data interface{}, want int) {
		n := 0
		for _, e := range log.Take() {
			if e.Type == typ && e.Data == data {
				n++
			}
		}
		if n != want {
			c.Fail("%s by several goroutines at once published %d events", what, n)
		}
		h.Count("same_object_rounds", 1)
	}
	for k := 0; k < 3; k++ {
		ep := ustack.NewEndPoint("same", 77)
		tr := NewMemTransport("same")
		present := func() (int, int) {
			a, b := 0, 0
			for _, e := range x.us.GetEndPoint() {
				if e == ep {
					a++
				}
			}
			for _, t := range x.us.GetTransport() {
				if t == ustack.Transport(tr) {
					b++
				}
			}
			return a, b
		}
		log.Take()
		for rounds := 1 + c.R.Intn(2); rounds > 0; rounds-- {
			together(func() { x.us.AddEndPoint(ep) })
			count("adding an endpoint", ustack.UStackEventEndpointAdded, ep, 1)
			together(func() { x.us.AddTransport(tr) })
			count("adding a transport", ustack.UStackEventTransportAdded, tr, 1)
			if a, b := present(); a != 1 || b != 1 {
				c.Fail("an added endpoint is listed %d times, an added transport %d times", a, b)
			}
			together(func() { x.us.DeleteEndPoint(ep) })
			count("deleting an endpoint", ustack.UStackEventEndpointDeleted, ep, 1)
			together(func() { x.us.DeleteTransport(tr) })
			count("deleting a transport", ustack.UStackEventTransportDeleted, tr, 1)
			if a, b := present(); a != 0 || b != 0 {
				c.Fail("a deleted endpoint is listed %d times, a deleted transport %d times", a, b)
			}
		}
	}
}

// c20repeat: the very same event published several times is as many events.
func c20repeat(c *C) {
	r := c.R
	us := ustack.NewUStack().SetName("same")
	n := make([]int, 4)
	var ep ustack.EndPoint
	var e ustack.Event
	count := func(k int) func(ustack.Event) {
		return func(x ustack.Event) {
			if x == e {
				n[k]++
			}
		}
	}
	us.SetEventListener(count(0))
	us.SetEventListener(count(1))
	for k := 2; k < 4; k++ {
		f := count(k)
		ep = ustack.NewEndPoint("e", k).SetEventListener(func(_ ustack.EndPoint, x ustack.Event) { f(x) })
		us.AddEndPoint(ep)
	}
	us.Run()
	data := []interface{}{NewMemConn("c"), ep, nil, "text", 7, us}
	types := []int{ustack.UStackEventNewConnection, ustack.UStackEventConnectionClosed, ustack.UStackEventHeartbeatLost,
		ustack.UStackEventHeartbeatRecover, 0, 99, -1}
	var sig []int
	for k := 0; k < 12; k++ {
		typ, d := r.Intn(len(types)), r.Intn(len(data))
		e = ustack.Event{Type: types[typ], Source: data[r.Intn(len(data))], Data: data[d]}
		times := 1 + r.Intn(5)
		for j := range n {
			n[j] = 0
		}
		for j := 0; j < times; j++ {
			us.PublishEvent(e)
		}
		for j := range n {
			if n[j] != times {
				c.Fail("event type %d, data %T, published %d times: party %d saw it %d times", e.Type, e.Data, times, j, n[j])
			}
		}
		sig = append(sig, typ, d, times)
	}
	c.Sig(sig)
}
