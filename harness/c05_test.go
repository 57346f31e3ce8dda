package harness

import (
	"bytes"
	"fmt"
	"math/rand"
	"testing"

	"ustack"
)

// frx drives one frame decoder from below and remembers every buffer it hands up.
type frx struct {
	u    *Unit
	mtu  int
	got  []*ustack.UBuf
	snap [][]byte
	conn []ustack.TransportConnection
	down [][]byte
}

func newFrx(mtu int, cacheCap int) *frx {
	f := &frx{mtu: mtu}
	fd := ustack.NewFrameDecoder()
	if cacheCap > 0 {
		fd.SetOption("CacheCapacity", cacheCap)
	}
	f.u = NewUnit(mtu,
		func(ctx ustack.Context) {
			f.got = append(f.got, ctx.GetBuffer())
			f.snap = append(f.snap, content(ctx.GetBuffer()))
			f.conn = append(f.conn, ctx.GetConnection())
		},
		func(ctx ustack.Context) { f.down = append(f.down, content(ctx.GetBuffer())) },
		fd)
	return f
}

func (f *frx) feed(conn ustack.TransportConnection, seg []byte) {
	f.u.Upw(ustack.NewUStackContext().SetConnection(conn).SetBuffer(rxBuf(f.mtu, seg)))
}

// ends[i] is the stream offset right after message i
func ends(msgs [][]byte) []int {
	var e []int
	o := 0
	for _, m := range msgs {
		o += 4 + len(m)
		e = append(e, o)
	}
	return e
}

func stream(msgs [][]byte) []byte {
	var s []byte
	for _, m := range msgs {
		s = append(s, frame(m)...)
	}
	return s
}

func completeAt(ends []int, off int) int {
	k := 0
	for k < len(ends) && ends[k] <= off {
		k++
	}
	return k
}

// runSegs feeds a segmentation and checks after each segment and at the end.
func runSegs(c *C, f *frx, conn *MemConn, msgs [][]byte, segs [][]byte) {
	e := ends(msgs)
	base := len(f.got)
	off := 0
	for i, s := range segs {
		if c.R.Intn(8) == 0 {
			// other things happen between two segments
			e := ustack.Event{Type: []int{ustack.UStackEventHeartbeatLost, ustack.UStackEventHeartbeatRecover, 100}[c.R.Intn(3)], Data: conn}
			if c.R.Intn(4) == 0 {
				e = ustack.Event{Type: ustack.UStackEventConnectionClosed, Data: NewMemConn(conn.GetName())}
			}
			f.u.US.PublishEvent(e)
		}
		f.feed(conn, s)
		off += len(s)
		want := completeAt(e, off)
		if got := len(f.got) - base; got != want {
			c.Fail("after segment %d (stream offset %d) %d messages were delivered, %d are complete; sizes %v",
				i, off, got, want, lens(segs[:i+1]))
		}
		for k := 0; k < want; k++ {
			if !bytes.Equal(f.snap[base+k], msgs[k]) {
				c.Fail("message %d delivered as %s, sent %s", k, short(f.snap[base+k]), short(msgs[k]))
			}
			if f.conn[base+k] != ustack.TransportConnection(conn) {
				c.Fail("message %d attributed to another connection", k)
			}
		}
	}
	// buffers handed up stay valid
	for k := range msgs {
		if !bytes.Equal(content(f.got[base+k]), msgs[k]) {
			c.Fail("buffer of message %d changed after its delivery: %s, sent %s", k, short(content(f.got[base+k])), short(msgs[k]))
		}
	}
	if conn.Closed() {
		c.Fail("the connection was closed by a well-formed stream")
	}
}

func lens(segs [][]byte) []int {
	var l []int
	for _, s := range segs {
		l = append(l, len(s))
	}
	if len(l) > 40 {
		l = l[len(l)-40:]
	}
	return l
}

func msgSize(r *rand.Rand, max int) int {
	switch r.Intn(6) {
	case 0:
		return max
	case 1:
		return max - r.Intn(4)%(max+1)
	case 2:
		return r.Intn(3) % (max + 1)
	default:
		if r.Intn(3) == 0 {
			return r.Intn(max + 1)
		}
		m := 40
		if m > max {
			m = max
		}
		return r.Intn(m + 1)
	}
}

// payload looks like a header now and then
func trickyBytes(r *rand.Rand, n int) []byte {
	b := randBytes(r, n)
	switch r.Intn(4) {
	case 0:
		for i := range b {
			b[i] = 0
		}
	case 1:
		for i := 0; i+4 <= n; i += 4 {
			copy(b[i:], be32(uint32(r.Intn(12))))
		}
	}
	return b
}

func TestC05direct(t *testing.T) {
	Plain(t, "C05direct", func(h *H) {
		// every segmentation of short streams
		sets := [][]int{{1}, {2}, {3, 1}, {1, 1}, {0, 1}, {2, 0}, {5}, {0, 0, 1}, {1, 2}, {4, 0}}
		if h.Tier == "thorough" {
			sets = append(sets, []int{8}, []int{2, 5}, []int{1, 1, 1}, []int{0, 3, 0}, []int{12})
		}
		for _, sizes := range sets {
			for _, cc := range []int{0, 4} {
				h.Case(fmt.Sprintf("all-%v-%d", sizes, cc), func(c *C) {
					c.Guard("receive", func() {
						var msgs [][]byte
						max := 0
						for _, n := range sizes {
							msgs = append(msgs, randBytes(c.R, n))
							if n > max {
								max = n
							}
						}
						s := stream(msgs)
						cacheCap := 0
						if cc > 0 {
							cacheCap = 4 + max // exactly one frame
						}
						for mask := 0; mask < 1<<(len(s)-1); mask++ {
							var segs [][]byte
							last := 0
							for i := 1; i < len(s); i++ {
								if mask>>(i-1)&1 == 1 {
									segs = append(segs, s[last:i])
									last = i
								}
							}
							segs = append(segs, s[last:])
							runSegs(c, newFrx(64, cacheCap), NewMemConn("c"), msgs, segs)
							h.Count("segmentations", 1)
						}
						c.Sig(sizes, cc)
					})
				})
			}
		}
		n := h.N(3000, 60000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				c.Guard("receive", func() {
					r := c.R
					mtu := []int{8, 16, 33, 64, 100, 256, 2048, 5000}[r.Intn(8)]
					big := i%150 == 149
					if big {
						mtu = []int{65600, 70000, 140000}[r.Intn(3)]
					}
					cacheCap := 0
					limit := 2 * mtu
					if r.Intn(2) == 0 {
						cacheCap = 5 + r.Intn(2*mtu)
						limit = cacheCap
					}
					max := limit - 4
					if r.Intn(3) > 0 && max > mtu-4 {
						max = mtu - 4 // what a peer with the same MTU can send
					}
					if max < 1 {
						max = 1
					}
					cnt := 1 + r.Intn(12)
					if r.Intn(10) == 0 {
						cnt = 60 + r.Intn(60)
					}
					if big {
						cnt = 2 + r.Intn(4)
					}
					var msgs [][]byte
					for k := 0; k < cnt; k++ {
						msgs = append(msgs, trickyBytes(r, msgSize(r, max)))
					}
					s := stream(msgs)
					if len(s) > 60000 && mtu < 60000 {
						return
					}
					f := newFrx(mtu, cacheCap)
					conn := NewMemConn("c")
					segs := cut(r, s, mtu)
					for big && len(segs) > 5000 {
						segs = cut(r, s, mtu)
					}
					c.Logf("mtu=%d cache=%d messages %v segments %v", mtu, cacheCap, lens(msgs), lens(segs))
					runSegs(c, f, conn, msgs, segs)
					h.Count("segments", int64(len(segs)))
					h.Count("messages", int64(len(msgs)))
					c.Sig(mtu, cacheCap, lens(msgs), lens(segs))
				})
			})
		}
		// a long beginning of the next frame stays behind a completed one
		for i := 0; i < h.N(30, 400); i++ {
			h.Case(fmt.Sprintf("left-%d", i), func(c *C) {
				c.Guard("receive", func() {
					r := c.R
					mtu := []int{70000, 140000, 200000, 70000, 140000, 1200000, 2500000}[r.Intn(7)]
					cacheCap := 0
					if r.Intn(2) == 0 {
						cacheCap = mtu + r.Intn(mtu)
					}
					var msgs [][]byte
					for k := 0; k < 4; k++ {
						msgs = append(msgs, trickyBytes(r, mtu/2+r.Intn(mtu/2-4)))
					}
					s := stream(msgs)
					first := 1 + r.Intn(len(msgs[0]))
					segs := [][]byte{s[:first]}
					for off := first; off < len(s); {
						n := mtu - r.Intn(mtu/8)
						if n > len(s)-off {
							n = len(s) - off
						}
						segs = append(segs, s[off:off+n])
						off += n
					}
					c.Logf("mtu=%d cache=%d messages %v segments %v", mtu, cacheCap, lens(msgs), lens(segs))
					runSegs(c, newFrx(mtu, cacheCap), NewMemConn("c"), msgs, segs)
					h.Count("messages", int64(len(msgs)))
					c.Sig(mtu, cacheCap, lens(msgs), lens(segs))
				})
			})
		}
		// thousands of tiny frames in one segment
		for i := 0; i < h.N(20, 300); i++ {
			h.Case(fmt.Sprintf("tiny-%d", i), func(c *C) {
				c.Guard("receive", func() {
					r := c.R
					mtu := []int{5000, 20000, 70000, 140000}[r.Intn(4)]
					longest := r.Intn(7)
					var msgs [][]byte
					for n := 0; n < 2*mtu; {
						m := trickyBytes(r, r.Intn(longest+1))
						msgs = append(msgs, m)
						n += 4 + len(m)
					}
					s := stream(msgs)
					var segs [][]byte
					for off := 0; off < len(s); {
						n := mtu
						if r.Intn(3) == 0 {
							n = 1 + r.Intn(mtu)
						}
						if n > len(s)-off {
							n = len(s) - off
						}
						segs = append(segs, s[off:off+n])
						off += n
					}
					c.Logf("mtu=%d %d messages of up to %d bytes, segments %v", mtu, len(msgs), longest, lens(segs))
					runSegs(c, newFrx(mtu, 0), NewMemConn("c"), msgs, segs)
					h.Count("messages", int64(len(msgs)))
					h.Count("segments", int64(len(segs)))
					c.Sig(mtu, len(msgs), lens(segs))
				})
			})
		}
		// sending side
		for i := 0; i < h.N(1500, 10000); i++ {
			h.Case(fmt.Sprintf("send-%d", i), func(c *C) {
				c.Guard("send", func() {
					r := c.R
					f := newFrx(4096, 0)
					sizes := []int{0, 1, 2, 255, 256, 257, 1000, 4000}
					if i%50 == 0 {
						sizes = []int{65534, 65535, 65536, 65537, 70000}
					}
					var want [][]byte
					for k := 0; k < 5; k++ {
						p := trickyBytes(r, sizes[r.Intn(len(sizes))])
						ub := ustack.UBufAllocWithHeadReserved(len(p)+8, 4+r.Intn(5))
						ub.Write(p)
						f.u.Down(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetBuffer(ub))
						want = append(want, frame(p))
					}
					if len(f.down) != len(want) {
						c.Fail("%d messages sent, %d left", len(want), len(f.down))
					}
					for k := range want {
						if !bytes.Equal(f.down[k], want[k]) {
							c.Fail("message %d left as %s, expected %s", k, short(f.down[k]), short(want[k]))
						}
					}
					h.Count("sent", int64(len(want)))
					c.Sig(i)
				})
			})
		}
	})
}

// TestC05stack: two whole stacks, both directions, every write cut at random.
func TestC05stack(t *testing.T) {
	Bubble(t, "C05stack", func(h *H) {
		n := h.N(250, 4000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				r := c.R
				mtu := []int{32, 64, 200, 2048}[r.Intn(4)]
				procs := func() []ustack.DataProcessor {
					return []ustack.DataProcessor{ustack.NewBytesCodec(), ustack.NewFrameDecoder()}
				}
				ea, eb := ustack.NewEndPoint("a", 0), ustack.NewEndPoint("b", 0)
				A, B := NewNode(mtu, procs(), ea), NewNode(mtu, procs(), eb)
				ca, cb := Pair("x", "x", cutter(r.Int63(), mtu), cutter(r.Int63(), mtu))
				// the receiving side coalesces what is queued
				A.Tr.Push(coalesce(ca, r.Int63()))
				B.Tr.Push(coalesce(cb, r.Int63()))
				Settle()
				var ab, ba [][]byte
				k := 5 + r.Intn(60)
				for j := 0; j < k; j++ {
					p := trickyBytes(r, 1+msgSize(r, mtu-5))
					if r.Intn(2) == 0 {
						ab = append(ab, p)
						send(ea, A.Tr.conns[0], p)
					} else {
						ba = append(ba, p)
						send(eb, B.Tr.conns[0], p)
					}
				}
				check := func(name string, ep ustack.EndPoint, want [][]byte) {
					got := drain(ep)
					if len(got) != len(want) {
						c.Fail("%s: %d messages sent, %d delivered", name, len(want), len(got))
					}
					for j := range want {
						b, ok := got[j].GetData().([]byte)
						if !ok || !bytes.Equal(b, want[j]) {
							c.Fail("%s: message %d delivered as %s, sent %s", name, j, short(b), short(want[j]))
						}
					}
				}
				check("a->b", eb, ab)
				check("b->a", ea, ba)
				h.Count("messages", int64(k))
				c.Logf("mtu=%d a->b %v b->a %v", mtu, lens(ab), lens(ba))
				c.Sig(mtu, lens(ab), lens(ba))
				A.Shut()
				B.Shut()
				Settle()
			})
		}
	})
}

// coalescing connection: one Read may return several queued segments
type coConn struct {
	*MemConn
	r *rand.Rand
}

func coalesce(m *MemConn, seed int64) *coConn {
	return &coConn{m, rand.New(rand.NewSource(seed))}
}

func (m *coConn) Read(p []byte) (int, error) {
	n, err := m.MemConn.Read(p)
	for err == nil && n < len(p) && m.Pending() > 0 && m.r.Intn(3) > 0 {
		m.mu.Lock()
		ok := len(m.queue) > 0 && len(m.queue[0].Data) > 0
		m.mu.Unlock()
		if !ok {
			break
		}
		var k int
		k, err = m.MemConn.Read(p[n:])
		n += k
	}
	return n, err
}
