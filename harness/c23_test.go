package harness

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"reflect"
	"testing"
	"time"

	"ustack"
)

// processors and features of a user, built as the library's own ones are
type myProc struct {
	ustack.ProcBase
	tag int
}

type myFeat struct {
	ustack.FeatBase
	tag int
}

func newMyProc() ustack.DataProcessor {
	p := &myProc{ProcBase: ustack.NewProcBaseInstance("mine"), tag: 7}
	return p.ProcBase.SetWhere(p)
}

func newMyFeat() ustack.Feature {
	f := &myFeat{FeatBase: ustack.NewFeatBaseInstance("mine"), tag: 7}
	return f.FeatBase.SetWhere(f)
}

var c23procs = map[string]func() ustack.DataProcessor{
	"base":     ustack.NewProcBase,
	"mine":     newMyProc,
	"bytes":    ustack.NewBytesCodec,
	"string":   ustack.NewStringCodec,
	"json":     func() ustack.DataProcessor { return ustack.NewJSONCodec(reflect.TypeOf(gobT{})) },
	"gob":      func() ustack.DataProcessor { return ustack.NewGOBCodec(reflect.TypeOf(gobT{})) },
	"generic":  func() ustack.DataProcessor { return c23generic() },
	"discard":  ustack.NewDiscarder,
	"echo":     ustack.NewEcho,
	"filter":   func() ustack.DataProcessor { return ustack.NewFilter() },
	"flow":     ustack.NewFlowController,
	"forward":  func() ustack.DataProcessor { return ustack.NewForwarder() },
	"frame":    ustack.NewFrameDecoder,
	"hb":       ustack.NewHeartbeat,
	"lb":       ustack.NewLoadBalancer,
	"loopback": ustack.NewLoopback,
	"lower":    ustack.NewLowerDeck,
	"upper":    ustack.NewUpperDeck,
	"session":  ustack.NewSessionResolver,
	"stat":     ustack.NewStatCounter,
}

type gobT struct{ A int }

func c23generic() ustack.DataProcessor {
	return ustack.NewGenericCodec(nil, nil, nil)
}

type namedInt int
type namedBool bool

// c23value makes an option value of some type; wild ones are of no expected type.
func c23value(r *rand.Rand) interface{} {
	switch r.Intn(18) {
	case 0:
		return r.Intn(1000)
	case 1:
		return -r.Intn(1000)
	case 2:
		return r.Intn(2) == 0
	case 3:
		return byte(r.Intn(256))
	case 4:
		return randBytes(r, r.Intn(5))
	case 5:
		return int64(r.Intn(100))
	case 6:
		return int32(r.Intn(100))
	case 7:
		return uint(r.Intn(100))
	case 8:
		return float64(r.Intn(100))
	case 9:
		return fmt.Sprint(r.Intn(100))
	case 10:
		return namedInt(r.Intn(100))
	case 11:
		return namedBool(true)
	case 12:
		n := r.Intn(100)
		return &n
	case 13:
		return nil
	case 14:
		return []int{1, 2}
	case 15:
		return json.Number("7")
	case 16:
		return int8(3)
	}
	return struct{ X int }{r.Intn(10)}
}

func c23same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// c23obj is one object with its model.
type c23obj struct {
	what    string
	setName func(string) interface{}
	getName func() string
	setOpt  func(string, interface{}) interface{}
	getOpt  func(string) interface{}
	other   []func(r *rand.Rand) interface{} // further setters, return what the setter returned
	verify  func(c *C)
	self    interface{}
	name    string
	opts    map[string]interface{}
}

func (o *c23obj) check(c *C) {
	if o.getName != nil {
		if g := o.getName(); g != o.name {
			c.Fail("%s: GetName returned %q, want %q", o.what, g, o.name)
		}
	}
	if o.getOpt != nil {
		for _, k := range c23keys {
			want := o.opts[k]
			if g := o.getOpt(k); !c23same(g, want) {
				c.Fail("%s: GetOption(%q) returned %v (%T), want %v (%T)", o.what, k, g, g, want, want)
			}
		}
	}
	if o.verify != nil {
		o.verify(c)
	}
}

var c23keys = []string{"MTU", "MaxRetryCount", "x", "", "IntervalInSecond", "session", "CloseOnLost", "CacheCapacity"}

func c23object(c *C, r *rand.Rand, id int) *c23obj {
	switch r.Intn(8) {
	case 0, 1, 2:
		names := c23names()
		kind := names[r.Intn(len(names))]
		p := c23procs[kind]()
		if m, ok := p.(*myProc); kind == "mine" && (!ok || m.tag != 7) {
			c.Fail("SetWhere returned another processor (%T) than the one it was given", p)
		}
		up, low, us := NewProbe("u"), NewProbe("l"), ustack.NewUStack()
		return &c23obj{what: fmt.Sprintf("processor %s #%d", kind, id), self: p, name: p.GetName(),
			setName: func(s string) interface{} { return p.SetName(s) }, getName: p.GetName,
			setOpt: func(n string, v interface{}) interface{} { return p.SetOption(n, v) }, getOpt: p.GetOption,
			other: []func(r *rand.Rand) interface{}{
				func(r *rand.Rand) interface{} { return p.SetEnable(r.Intn(2) == 0) },
				func(r *rand.Rand) interface{} { return p.ForServer(r.Intn(2) == 0) },
				func(r *rand.Rand) interface{} { return p.SetUStack(us) },
				func(r *rand.Rand) interface{} { return p.SetUpper(up) },
				func(r *rand.Rand) interface{} { return p.SetLower(low) },
			}}
	case 3:
		f := []func() ustack.Feature{ustack.NewFeatBase, newMyFeat}[r.Intn(2)]()
		if m, ok := f.(*myFeat); f.GetName() == "mine" && (!ok || m.tag != 7) {
			c.Fail("SetWhere returned another feature (%T) than the one it was given", f)
		}
		us := ustack.NewUStack()
		return &c23obj{what: fmt.Sprintf("feature #%d", id), self: f, name: f.GetName(),
			setName: func(s string) interface{} { return f.SetName(s) }, getName: f.GetName,
			setOpt: func(n string, v interface{}) interface{} { return f.SetOption(n, v) }, getOpt: f.GetOption,
			other: []func(r *rand.Rand) interface{}{
				func(r *rand.Rand) interface{} { return f.SetUStack(us) },
				func(r *rand.Rand) interface{} { return f.Run() },
			}}
	case 4:
		mk := []func(string) ustack.Transport{ustack.NewTCPTransport, ustack.NewUDSTransport, ustack.NewReferenceTransport}
		name := fmt.Sprint("t", r.Intn(5))
		t := mk[r.Intn(3)](name)
		addr := t.GetAddress()
		return &c23obj{what: fmt.Sprintf("transport %T #%d", t, id), self: t, name: name, getName: t.GetName,
			setOpt: func(n string, v interface{}) interface{} { return t.SetOption(n, v) }, getOpt: t.GetOption,
			other: []func(r *rand.Rand) interface{}{
				func(r *rand.Rand) interface{} { return t.ForServer(r.Intn(2) == 0) },
				func(r *rand.Rand) interface{} { addr = fmt.Sprint("a", r.Intn(9)); return t.SetAddress(addr) },
			},
			verify: func(c *C) {
				if t.GetAddress() != addr {
					c.Fail("transport %T #%d: GetAddress returned %q, want %q", t, id, t.GetAddress(), addr)
				}
			}}
	case 5:
		ses := r.Intn(1 << 20)
		name := fmt.Sprint("e", r.Intn(5))
		e := ustack.NewEndPoint(name, ses)
		tx, rx := e.GetTxChannel(), e.GetRxChannel()
		return &c23obj{what: fmt.Sprintf("endpoint #%d", id), self: e, name: name,
			setName: func(s string) interface{} { return e.SetName(s) }, getName: e.GetName,
			other: []func(r *rand.Rand) interface{}{
				func(r *rand.Rand) interface{} { ses = int(r.Uint32()); return e.SetSession(ses) },
				func(r *rand.Rand) interface{} { return e.SetEventListener(func(ustack.EndPoint, ustack.Event) {}) },
				func(r *rand.Rand) interface{} { return e.SetEventListener(nil) },
				func(r *rand.Rand) interface{} { return e.SetDataListener(nil) },
			},
			verify: func(c *C) {
				if e.GetSession() != ses {
					c.Fail("endpoint #%d: GetSession returned %d, want %d", id, e.GetSession(), ses)
				}
				if e.GetTxChannel() != tx || e.GetRxChannel() != rx || tx == nil || rx == nil || tx == rx {
					c.Fail("endpoint #%d: its channels changed or are the same", id)
				}
			}}
	case 6:
		if r.Intn(2) == 0 {
			d := ustack.NewEndPointData()
			var cn ustack.TransportConnection
			var data interface{}
			has, ses := false, 0
			return &c23obj{what: fmt.Sprintf("endpoint data #%d", id), self: d,
				other: []func(r *rand.Rand) interface{}{
					func(r *rand.Rand) interface{} {
						cn = nil
						if r.Intn(3) > 0 {
							cn = NewMemConn("x")
						}
						return d.SetConnection(cn)
					},
					func(r *rand.Rand) interface{} { data = c23value(r); return d.SetData(data) },
					func(r *rand.Rand) interface{} {
						has, ses = true, int(r.Uint32())
						return d.SetDestinationSession(ses)
					},
					func(r *rand.Rand) interface{} { has = false; return d.ClearDestinationSession() },
				},
				verify: func(c *C) {
					if d.GetConnection() != cn || !c23same(d.GetData(), data) || d.HasDestinationSession() != has || has && d.GetDestinationSession() != ses {
						c.Fail("endpoint data #%d: the getters return %v %v %v %d, want %v %v %v %d", id,
							d.GetConnection(), d.GetData(), d.HasDestinationSession(), d.GetDestinationSession(), cn, data, has, ses)
					}
				}}
		}
		x := ustack.NewUStackContext()
		var cn ustack.TransportConnection
		var ub *ustack.UBuf
		var msg interface{}
		return &c23obj{what: fmt.Sprintf("context #%d", id), self: x,
			setOpt: func(n string, v interface{}) interface{} { return x.SetOption(n, v) }, getOpt: x.GetOption,
			other: []func(r *rand.Rand) interface{}{
				func(r *rand.Rand) interface{} {
					cn = nil
					if r.Intn(3) > 0 {
						cn = NewMemConn("x")
					}
					return x.SetConnection(cn)
				},
				func(r *rand.Rand) interface{} {
					ub = nil
					if r.Intn(3) > 0 {
						ub = ustack.UBufAlloc(8)
					}
					return x.SetBuffer(ub)
				},
				func(r *rand.Rand) interface{} { msg = c23value(r); return x.SetMessage(msg) },
			},
			verify: func(c *C) {
				if x.GetConnection() != cn || x.GetBuffer() != ub || !c23same(x.GetMessage(), msg) {
					c.Fail("context #%d: a getter does not return what was set", id)
				}
			}}
	}
	return c23ustack(id)
}

// c23ustack is a stack with the lists it has to keep.
func c23ustack(id int) *c23obj {
	us := ustack.NewUStack()
	var fs []ustack.Feature
	var es []ustack.EndPoint
	var ts []ustack.Transport
	pool := []string{"a", "b", "c", ""}
	o := &c23obj{what: fmt.Sprintf("stack #%d", id), self: us, name: us.GetName(),
		setName: func(s string) interface{} { return us.SetName(s) }, getName: us.GetName,
		setOpt: func(n string, v interface{}) interface{} { return us.SetOption(n, v) }, getOpt: us.GetOption}
	o.other = []func(r *rand.Rand) interface{}{
		func(r *rand.Rand) interface{} {
			f := newMyFeat().SetName(pool[r.Intn(len(pool))])
			fs = append(fs, f)
			return us.AddFeature(f)
		},
		func(r *rand.Rand) interface{} {
			if len(fs) > 0 {
				fs[r.Intn(len(fs))].SetName(pool[r.Intn(len(pool))])
			}
			return us
		},
		func(r *rand.Rand) interface{} {
			e := ustack.NewEndPoint("e", r.Intn(3))
			if len(es) > 0 && r.Intn(4) == 0 {
				e = es[r.Intn(len(es))]
			} else {
				es = append(es, e)
			}
			return us.AddEndPoint(e)
		},
		func(r *rand.Rand) interface{} {
			if len(es) == 0 || r.Intn(4) == 0 {
				return us.DeleteEndPoint(ustack.NewEndPoint("e", 0))
			}
			i := r.Intn(len(es))
			e := es[i]
			es = append(append([]ustack.EndPoint(nil), es[:i]...), es[i+1:]...)
			return us.DeleteEndPoint(e)
		},
		func(r *rand.Rand) interface{} {
			t := ustack.Transport(NewMemTransport("t"))
			if len(ts) > 0 && r.Intn(4) == 0 {
				t = ts[r.Intn(len(ts))]
			} else {
				ts = append(ts, t)
			}
			return us.AddTransport(t)
		},
		func(r *rand.Rand) interface{} {
			if len(ts) == 0 || r.Intn(4) == 0 {
				return us.DeleteTransport(NewMemTransport("t"))
			}
			i := r.Intn(len(ts))
			t := ts[i]
			ts = append(append([]ustack.Transport(nil), ts[:i]...), ts[i+1:]...)
			return us.DeleteTransport(t)
		},
		func(r *rand.Rand) interface{} { return us.SetEventListener(func(ustack.Event) {}) },
		func(r *rand.Rand) interface{} { return us.AppendDataProcessor(newMyProc()) },
		func(r *rand.Rand) interface{} { return us.PublishEvent(ustack.Event{Type: 99}) },
	}
	o.verify = func(c *C) {
		same := func(kind string, got, want interface{}) {
			g, w := reflect.ValueOf(got), reflect.ValueOf(want)
			ok := g.Len() == w.Len()
			for k := 0; ok && k < g.Len(); k++ {
				ok = g.Index(k).Interface() == w.Index(k).Interface()
			}
			if !ok {
				c.Fail("%s lists %d %s instead of the %d added ones in order", o.what, g.Len(), kind, w.Len())
			}
		}
		same("features", us.GetFeatures(), fs)
		same("endpoints", us.GetEndPoint(), es)
		same("transports", us.GetTransport(), ts)
		for _, n := range append(pool, "never used") {
			var want ustack.Feature
			for _, f := range fs {
				if f.GetName() == n {
					want = f
					break
				}
			}
			if g := us.GetFeature(n); g != want {
				c.Fail("%s: GetFeature(%q) does not return the first feature of that name", o.what, n)
			}
		}
	}
	return o
}

func c23names() []string {
	var l []string
	for k := range c23procs {
		l = append(l, k)
	}
	for i := range l { // sorted: choices must not depend on the map
		for j := i + 1; j < len(l); j++ {
			if l[j] < l[i] {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	return l
}

func TestC23(t *testing.T) {
	Plain(t, "C23", func(h *H) {
		for i := 0; i < h.N(1500, 40000); i++ {
			h.Case(fmt.Sprintf("chain-%d", i), func(c *C) {
				r := c.R
				var objs []*c23obj
				for k := 0; k < 2+r.Intn(6); k++ {
					o := c23object(c, r, k)
					o.opts = map[string]interface{}{}
					o.check(c)
					objs = append(objs, o)
					c.Sig(o.what)
				}
				steps := 10 + r.Intn(50)
				for k := 0; k < steps; k++ {
					o := objs[r.Intn(len(objs))]
					var got interface{}
					var what string
					switch p := r.Intn(6); {
					case p == 0 && o.setName != nil:
						o.name = fmt.Sprint("n", r.Intn(4))
						got, what = o.setName(o.name), "SetName"
					case p <= 2 && o.setOpt != nil:
						n, v := c23keys[r.Intn(len(c23keys))], c23value(r)
						o.opts[n] = v
						got, what = o.setOpt(n, v), "SetOption"
					default:
						if len(o.other) == 0 {
							continue
						}
						x := r.Intn(len(o.other))
						got, what = o.other[x](r), fmt.Sprintf("setter %d", x)
					}
					if got != o.self {
						c.Fail("%s: %s returned another object: %T %p, want %T %p", o.what, what, got, got, o.self, o.self)
					}
					for _, x := range objs {
						x.check(c)
					}
				}
				h.Count("configuration_calls", int64(steps))
				c.Sig(steps)
				c.Logf("%d objects, %d calls", len(objs), steps)
			})
			if i%3 == 0 {
				h.Case(fmt.Sprintf("parse-%d", i), func(c *C) { c23parse(h, c) })
			}
			if i%3 == 1 {
				h.Case(fmt.Sprintf("mtu-%d", i), func(c *C) {
					v := c23value(c.R)
					if c.R.Intn(3) == 0 {
						v = 1 + c.R.Intn(1<<uint(4+c.R.Intn(26)))
					}
					us := ustack.NewUStack().SetOption("MTU", v)
					us.Run()
					want := 2048
					if n, ok := v.(int); ok {
						want = n
					}
					if us.GetMTU() != want {
						c.Fail("option MTU %v (%T) makes the MTU %d", v, v, us.GetMTU())
					}
					c.Sig("mtu", v)
					c.Logf("MTU option %v (%T): %d", v, v, want)
				})
			}
		}
	})
}

func c23parse(h *H, c *C) {
	r := c.R
	for k := 0; k < 20; k++ {
		v := c23value(r)
		db, di, dl := byte(r.Intn(256)), r.Intn(1000), r.Intn(2) == 0
		wb, okb := v.(byte)
		if g, ok := ustack.OptionParseByte(v, db); ok != okb || okb && g != wb || !okb && g != db {
			c.Fail("OptionParseByte(%v (%T), %d) = %d, %v", v, v, db, g, ok)
		}
		wi, oki := v.(int)
		if g, ok := ustack.OptionParseInt(v, di); ok != oki || oki && g != wi || !oki && g != di {
			c.Fail("OptionParseInt(%v (%T), %d) = %d, %v", v, v, di, g, ok)
		}
		wl, okl := v.(bool)
		if g, ok := ustack.OptionParseBool(v, dl); ok != okl || okl && g != wl || !okl && g != dl {
			c.Fail("OptionParseBool(%v (%T), %v) = %v, %v", v, v, dl, g, ok)
		}
		ws, oks := v.([]byte)
		if g, ok := ustack.OptionParseByteSlice(v); ok != oks || oks && !bytes.Equal(g, ws) || !oks && g != nil {
			c.Fail("OptionParseByteSlice(%v (%T)) = %v, %v", v, v, g, ok)
		}
		c.Sig("parse", fmt.Sprintf("%T", v))
		c.Logf("%T", v)
	}
	h.Count("options_parsed", 80)
}

// TestC23effect: an option of a wrong type must leave the behaviour of an object
// without the option; one of the right type must take effect.
func TestC23effect(t *testing.T) {
	Bubble(t, "C23effect", func(h *H) {
		for i := 0; i < h.N(12, 60); i++ {
			h.Case(fmt.Sprintf("effect-%d", i), func(c *C) { c23effect(h, c, i) })
		}
	})
}

// c23wrong makes a value that is neither an int nor of the given type.
func c23wrong(r *rand.Rand, right interface{}) interface{} {
	for {
		v := c23value(r)
		if reflect.TypeOf(v) != reflect.TypeOf(right) {
			return v
		}
	}
}

type c23beh struct {
	beats, requests int
	lost, closed    int
	lostAt          time.Duration
}

// c23timed runs a silent connection for a while and tells what happened on it.
func c23timed(hbOpt, scOpt map[string]interface{}) c23beh {
	hb, sc := ustack.NewHeartbeat(), ustack.NewStatCounter()
	for k, v := range hbOpt {
		hb.SetOption(k, v)
	}
	for k, v := range scOpt {
		sc.SetOption(k, v)
	}
	n := NewNode(0, []ustack.DataProcessor{ustack.NewBytesCodec(), hb, sc})
	var b c23beh
	cn := NewMemConn("c")
	start := time.Now()
	n.US.SetEventListener(func(e ustack.Event) {
		if e.Type == ustack.UStackEventHeartbeatLost {
			b.lost++
			b.lostAt = time.Since(start)
		}
	})
	n.Tr.Push(cn)
	time.Sleep(40*time.Second + 500*time.Millisecond)
	Settle()
	for _, w := range cn.Writes.All() {
		if len(w) == 1 {
			b.requests++
		} else {
			b.beats++
		}
	}
	if cn.Closed() {
		b.closed = 1
	}
	n.Shut()
	cn.Close()
	Settle()
	return b
}

func c23effect(h *H, c *C, i int) {
	r := c.R
	none := c23timed(nil, nil)
	if none.beats < 20 || none.requests != 0 || none.lost != 1 || none.closed != 1 {
		c.Fail("without options a silent connection sees %+v in 40 s", none)
	}
	near := func(a, b time.Duration) bool { return a-b < 2*time.Second && b-a < 2*time.Second }
	same := func(what string, g c23beh) {
		if g.lost != none.lost || g.closed != none.closed || g.requests != none.requests || !near(g.lostAt, none.lostAt) ||
			g.beats-none.beats > 2 || none.beats-g.beats > 2 {
			c.Fail("%s: a silent connection sees %+v, without option %+v", what, g, none)
		}
		h.Count("wrong_type_options", 1)
	}
	for _, o := range []string{"IntervalInSecond", "TimeoutInSecond", "CloseOnLost"} {
		var right interface{} = 1
		if o == "CloseOnLost" {
			right = false
		}
		v := c23wrong(r, right)
		same(fmt.Sprintf("heartbeat option %s=%v (%T)", o, v, v), c23timed(map[string]interface{}{o: v}, nil))
		c.Sig(o, fmt.Sprintf("%T", v))
	}
	v := c23wrong(r, 1)
	same(fmt.Sprintf("statistics option Collect.IntervalInSecond=%v (%T)", v, v), c23timed(nil, map[string]interface{}{"Collect.IntervalInSecond": v}))
	// right ones
	iv, to := 2+r.Intn(4), 5+r.Intn(20)
	g := c23timed(map[string]interface{}{"IntervalInSecond": iv}, nil)
	if want := int(none.lostAt/time.Second)/iv + 1; g.beats < want-2 || g.beats > want+2 {
		c.Fail("heartbeat option IntervalInSecond=%d: %d heartbeats until the loss after %v", iv, g.beats, none.lostAt)
	}
	g = c23timed(map[string]interface{}{"TimeoutInSecond": to}, nil)
	if g.lost != 1 || !near(g.lostAt, time.Duration(to)*time.Second) {
		c.Fail("heartbeat option TimeoutInSecond=%d: lost %d times, last after %v", to, g.lost, g.lostAt)
	}
	g = c23timed(map[string]interface{}{"CloseOnLost": false}, nil)
	if g.lost != 1 || g.closed != 0 {
		c.Fail("heartbeat option CloseOnLost=false: %+v", g)
	}
	ci := 2 + r.Intn(5)
	g = c23timed(map[string]interface{}{"CloseOnLost": false}, map[string]interface{}{"Collect.IntervalInSecond": ci})
	if want := 40/ci + 1; g.requests < want-1 || g.requests > want+1 {
		c.Fail("statistics option Collect.IntervalInSecond=%d: %d requests in 40 s", ci, g.requests)
	}
	// queue size of a reference connection
	room := func(opt interface{}, set bool) int {
		a := ustack.NewReferenceTransport("a").ForServer(true).SetAddress(fmt.Sprint("c23-", i))
		if set {
			a.SetOption("MaxQueueSize", opt)
		}
		a.Run()
		cn := a.NextConnection()
		done := make(chan struct{})
		n := 0
		go func() {
			defer close(done)
			for cn.SetReference(n) == nil {
				n++
			}
		}()
		Settle()
		got := n
		cn.Close()
		a.Stop()
		if set && !c23same(a.GetOption("MaxQueueSize"), opt) {
			c.Fail("reference: option MaxQueueSize is %v after the transport was stopped, %v was set", a.GetOption("MaxQueueSize"), opt)
		}
		<-done
		return got
	}
	def := room(nil, false)
	if def < 1 {
		c.Fail("a reference connection takes no message")
	}
	v = c23wrong(r, 1)
	if g := room(v, true); g != def {
		c.Fail("reference option MaxQueueSize=%v (%T): %d messages fit, %d without option", v, v, g, def)
	}
	q := r.Intn(50)
	if r.Intn(4) == 0 {
		q = 0
	}
	if g := room(q, true); g != q {
		c.Fail("reference option MaxQueueSize=%d: %d messages fit", q, g)
	}
	// frame cache: the largest frame a receiver takes
	holds := func(opt interface{}, set bool, size int) bool {
		fd := ustack.NewFrameDecoder()
		if set {
			fd.SetOption("CacheCapacity", opt)
		}
		ep := ustack.NewEndPoint("e", 0)
		n := NewNode(256, []ustack.DataProcessor{ustack.NewBytesCodec(), fd}, ep)
		cn := NewMemConn("c")
		n.Tr.Push(cn)
		f := frame(randBytes(r, size))
		for len(f) > 0 {
			k := 200
			if k > len(f) {
				k = len(f)
			}
			cn.FeedBytes(f[:k])
			f = f[k:]
		}
		got := drain(ep)
		ok := len(got) == 1
		n.Shut()
		cn.Close()
		Settle()
		return ok
	}
	limit := func(opt interface{}, set bool) int {
		lo, hi := 1, 4096
		for lo < hi {
			m := (lo + hi + 1) / 2
			if holds(opt, set, m) {
				lo = m
			} else {
				hi = m - 1
			}
		}
		return lo
	}
	dl := limit(nil, false)
	v = c23wrong(r, 1)
	if g := limit(v, true); g != dl {
		c.Fail("frame option CacheCapacity=%v (%T): frames up to %d, without option up to %d", v, v, g, dl)
	}
	cc := 600 + r.Intn(1000)
	if g := limit(cc, true); g < cc-4 || g > cc {
		c.Fail("frame option CacheCapacity=%d: frames up to %d", cc, g)
	}
	// retries of a client nobody answers
	gaveUp := func(kind string, opts map[string]interface{}) time.Duration {
		tr := ustack.NewTCPTransport("c")
		if kind == "unix" {
			tr = ustack.NewUDSTransport("c")
		}
		tr.ForServer(false).SetAddress(newAddress(kind))
		for k, v := range opts {
			tr.SetOption(k, v)
		}
		start := time.Now()
		tr.Run()
		if cn := tr.NextConnection(); cn != nil {
			c.Fail("%s: a connection to an address nobody listens on", kind)
		}
		d := time.Since(start)
		tr.Stop()
		for k, v := range opts {
			if !c23same(tr.GetOption(k), v) {
				c.Fail("%s: option %s is %v after the transport was stopped, %v was set", kind, k, tr.GetOption(k), v)
			}
		}
		return d
	}
	for _, kind := range []string{"tcp", "unix"} {
		def := gaveUp(kind, nil)
		v = c23wrong(r, 1)
		if g := gaveUp(kind, map[string]interface{}{"MaxRetryCount": v}); g != def {
			c.Fail("%s option MaxRetryCount=%v (%T): gave up after %v, without option after %v", kind, v, v, g, def)
		}
		v = c23wrong(r, 1)
		if g := gaveUp(kind, map[string]interface{}{"RetryIntervalInSecond": v}); g != def {
			c.Fail("%s option RetryIntervalInSecond=%v (%T): gave up after %v, without option after %v", kind, v, v, g, def)
		}
		m, s := 2+r.Intn(10), 1+r.Intn(5)
		g := gaveUp(kind, map[string]interface{}{"MaxRetryCount": m, "RetryIntervalInSecond": s})
		if g < time.Duration((m-1)*s)*time.Second || g > time.Duration(m*s)*time.Second {
			c.Fail("%s options MaxRetryCount=%d RetryIntervalInSecond=%d: gave up after %v", kind, m, s, g)
		}
	}
	c.Sig(iv, to, ci, q, cc)
	c.Logf("interval %d, timeout %d, collection %d, queue %d, cache %d; default frame limit %d, queue %d", iv, to, ci, q, cc, dl, def)
}
