package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"

	"ustack"
)

// TestC22proc: one processor used by the goroutines of several endpoints (downward),
// several connections (upward) and event publishers at once; the race detector and the
// runtime are the oracle, and what comes out is counted.
func TestC22proc(t *testing.T) {
	Plain(t, "C22proc", func(h *H) {
		for i := 0; i < h.N(12, 150); i++ {
			for k, p := range c22procs() {
				h.Case(fmt.Sprintf("%s-%d", p.name, i), func(c *C) { c22proc(h, c, c22procs()[k]) })
			}
		}
	})
}

type c22p struct {
	name string
	mk   func(odd func(ustack.Context) bool) ustack.DataProcessor
	body func(r *rand.Rand) []byte // what arrives from below
	code bool                      // works on messages above and buffers below
}

func c22procs() []c22p {
	some := func(r *rand.Rand) []byte { return randBytes(r, 1+r.Intn(40)) }
	tag := func(tags ...byte) func(r *rand.Rand) []byte {
		return func(r *rand.Rand) []byte { return append([]byte{tags[r.Intn(len(tags))]}, some(r)...) }
	}
	plain := func(f func() ustack.DataProcessor) func(func(ustack.Context) bool) ustack.DataProcessor {
		return func(func(ustack.Context) bool) ustack.DataProcessor { return f() }
	}
	l := []c22p{
		{"filter", func(odd func(ustack.Context) bool) ustack.DataProcessor {
			return ustack.NewFilter(func(x ustack.Context, up bool) bool { return false }, func(x ustack.Context, up bool) bool { return odd(x) })
		}, some, false},
		{"forwarder", func(odd func(ustack.Context) bool) ustack.DataProcessor {
			return ustack.NewForwarder(func(x ustack.Context, up bool) bool { return false }, func(x ustack.Context, up bool) bool { return odd(x) })
		}, some, false},
		{"echo", plain(ustack.NewEcho), some, false},
		{"discarder", plain(ustack.NewDiscarder), some, false},
		{"loopback", plain(ustack.NewLoopback), some, false},
		{"flow", plain(ustack.NewFlowController), some, false},
		{"lb", plain(func() ustack.DataProcessor { return ustack.NewLoadBalancer().SetEnable(false) }), tag(upTag("lb")), false},
		{"stat", plain(ustack.NewStatCounter), tag(upTag("stat"), tagReq, tagRes), false},
		{"heartbeat", plain(ustack.NewHeartbeat), tag(upTag("hb"), tagBeat), false},
		{"session", plain(ustack.NewSessionResolver), func(r *rand.Rand) []byte { return append(be32(r.Uint32()), some(r)...) }, false},
		{"frame", plain(ustack.NewFrameDecoder), func(r *rand.Rand) []byte { f := frame(some(r)); return f[:1+r.Intn(len(f))] }, false},
	}
	for _, cd := range codecs() {
		mk := cd.mk
		l = append(l, c22p{cd.name, plain(mk), func(r *rand.Rand) []byte { return cd.enc(cd.gen(r, 1+r.Intn(30))) }, true})
	}
	return l
}

func c22proc(h *H, c *C, p c22p) {
	r := c.R
	var up, down, done atomic.Int64
	odd := func(x ustack.Context) bool { return x.GetOption("n").(int)%2 == 1 }
	u := NewUnit(512, func(ustack.Context) { up.Add(1) }, func(ustack.Context) { down.Add(1) }, p.mk(odd))
	var cd codecDef
	for _, x := range codecs() {
		if x.name == p.name {
			cd = x
		}
	}
	start := make(chan struct{})
	var wg sync.WaitGroup
	shared := []ustack.TransportConnection{NewMemConn("a"), NewMemConn("a")}
	for g := 0; g < 6; g++ {
		r := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			mine := NewMemConn("a") // upward data of a connection comes from one goroutine
			u.US.PublishEvent(ustack.Event{Type: ustack.UStackEventNewConnection, Data: ustack.TransportConnection(mine)})
			for k := 0; k < 40; k++ {
				ctx := ustack.NewUStackContext().SetOption("n", k).SetOption("session", r.Intn(5))
				if g%2 == 0 {
					ctx.SetConnection(shared[r.Intn(2)])
					if p.code {
						ctx.SetMessage(cd.gen(r, 1+r.Intn(30)))
					} else {
						ub := ustack.UBufAllocWithHeadReserved(512, 64)
						ub.Write(randBytes(r, 1+r.Intn(40)))
						ctx.SetBuffer(ub)
					}
					u.Down(ctx)
				} else {
					ctx.SetConnection(mine).SetBuffer(rxBuf(512, p.body(r)))
					u.Upw(ctx)
				}
				done.Add(1)
				if r.Intn(10) == 0 {
					u.US.PublishEvent(ustack.Event{Type: 300 + r.Intn(3), Data: ustack.TransportConnection(mine)})
					u.US.GetOverhead()
					u.US.GetMTU()
				}
			}
			mine.Close()
			u.US.PublishEvent(ustack.Event{Type: ustack.UStackEventConnectionClosed, Data: ustack.TransportConnection(mine)})
		}()
	}
	close(start)
	wg.Wait()
	h.Count("calls", done.Load())
	h.Count("passed", up.Load()+down.Load())
	c.Sig(p.name, h.Seed, c.Name)
	c.Logf("%s: %d calls, %d came out above, %d below", p.name, done.Load(), up.Load(), down.Load())
}
