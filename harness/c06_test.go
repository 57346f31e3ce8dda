package harness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing"
	"time"

	"ustack"
)

// tagged messages carry the index of their connection and a sequence number
func tagged(r *rand.Rand, conn, seq, size int) []byte {
	if size < 8 {
		size = 8
	}
	b := trickyBytes(r, size)
	binary.BigEndian.PutUint32(b, uint32(conn))
	binary.BigEndian.PutUint32(b[4:], uint32(seq))
	return b
}

// TestC06direct: interleaved partial segments, one goroutine.
func TestC06direct(t *testing.T) {
	Plain(t, "C06direct", func(h *H) {
		n := h.N(2500, 40000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				c.Guard("interleaved receive", func() {
					r := c.R
					mtu := []int{32, 64, 256}[r.Intn(3)]
					f := newFrx(mtu, 0)
					type st struct {
						id   int
						conn *MemConn
						msgs [][]byte
						segs [][]byte
						off  int
						got  int
					}
					ids := 0
					mk := func() *st {
						s := &st{id: ids, conn: NewMemConn("same")}
						ids++
						for k := 0; k < 1+r.Intn(5); k++ {
							s.msgs = append(s.msgs, tagged(r, s.id, k, 1+msgSize(r, mtu-5)))
						}
						s.segs = cut(r, stream(s.msgs), mtu)
						return s
					}
					var live []*st
					for k := 0; k < 2+r.Intn(4); k++ {
						live = append(live, mk())
					}
					closedMid := 0
					trace := []int{}
					for step := 0; len(live) > 0 && step < 2000; step++ {
						if r.Intn(25) == 0 {
							// a connection with a bad stream comes and goes
							x := NewMemConn("x")
							before := len(f.got)
							f.feed(x, append(be32(uint32(1<<20+r.Int63n(1<<32-1<<20))), randBytes(r, r.Intn(mtu-4))...))
							if !x.Closed() || len(f.got) != before {
								c.Fail("an oversized frame: closed %v, %d messages", x.Closed(), len(f.got)-before)
							}
							f.u.US.PublishEvent(ustack.Event{Type: ustack.UStackEventConnectionClosed, Data: x})
							h.Count("bad_streams", 1)
						}
						k := r.Intn(len(live))
						s := live[k]
						drop := func() { live = append(live[:k], live[k+1:]...) }
						if len(s.segs) == 0 || r.Intn(25) == 0 {
							if len(s.segs) > 0 && completeAt(ends(s.msgs), s.off) < len(s.msgs) {
								closedMid++
							}
							s.conn.Close()
							f.u.US.PublishEvent(ustack.Event{Type: ustack.UStackEventConnectionClosed, Data: s.conn})
							drop()
							if ids < 12 && r.Intn(2) == 0 {
								live = append(live, mk())
							}
							continue
						}
						before := len(f.got)
						f.feed(s.conn, s.segs[0])
						s.off += len(s.segs[0])
						s.segs = s.segs[1:]
						trace = append(trace, s.id)
						want := completeAt(ends(s.msgs), s.off)
						for j := before; j < len(f.got); j++ {
							if f.conn[j] != ustack.TransportConnection(s.conn) {
								c.Fail("a message completed by connection %d is attributed to another connection", s.id)
							}
							if s.got >= len(s.msgs) || !bytes.Equal(f.snap[j], s.msgs[s.got]) {
								c.Fail("connection %d: message %d delivered as %s", s.id, s.got, short(f.snap[j]))
							}
							s.got++
						}
						if s.got != want {
							c.Fail("connection %d: %d messages delivered, %d complete (trace %v)", s.id, s.got, want, trace)
						}
						if s.conn.Closed() {
							c.Fail("connection %d was closed by a well-formed stream", s.id)
						}
					}
					h.Count("segments", int64(len(trace)))
					h.Count("closed_in_mid_frame", int64(closedMid))
					c.Logf("mtu=%d connections=%d closed mid frame=%d interleaving %v", mtu, ids, closedMid, trace)
					c.Sig(mtu, ids, trace)
				})
			})
		}
		for i := 0; i < h.N(30, 400); i++ {
			h.Case(fmt.Sprintf("many-%d", i), func(c *C) {
				c.Guard("interleaved receive", func() { c06many(h, c) })
			})
		}
	})
}

// c06many: hundreds of connections are in the middle of a frame at once.
func c06many(h *H, c *C) {
	r := c.R
	mtu := []int{32, 64, 256}[r.Intn(3)]
	f := newFrx(mtu, 0)
	type st struct {
		conn *MemConn
		msg  []byte
		rest []byte
	}
	var all []*st
	for k := 20 + r.Intn(380); k > 0; k-- {
		s := &st{conn: NewMemConn("same")}
		all = append(all, s)
	}
	begin := func(k int) {
		s := all[k]
		s.msg = tagged(r, k, r.Intn(1000), 1+msgSize(r, mtu-5))
		b := frame(s.msg)
		n := 1 + r.Intn(len(b)-1)
		f.feed(s.conn, b[:n])
		s.rest = b[n:]
		if s.conn.Closed() || len(f.got) != 0 {
			c.Fail("connection %d of %d, mid frame: closed %v, %d messages", k, len(all), s.conn.Closed(), len(f.got))
		}
	}
	done := 0
	for round := 0; round < 2; round++ {
		for k := range all {
			begin(k)
		}
		gone := r.Intn(3)
		for _, k := range r.Perm(len(all)) {
			s := all[k]
			if gone > 0 && r.Intn(4) < gone {
				s.conn.Close()
				f.u.US.PublishEvent(ustack.Event{Type: ustack.UStackEventConnectionClosed, Data: s.conn})
				s.conn = NewMemConn("same")
				begin(k)
			}
			f.feed(s.conn, s.rest)
			if len(f.got) != 1 || f.conn[0] != ustack.TransportConnection(s.conn) || !bytes.Equal(f.snap[0], s.msg) {
				c.Fail("connection %d of %d completed its frame: %d messages delivered, or not its own", k, len(all), len(f.got))
			}
			f.got, f.conn, f.snap = nil, nil, nil
			done++
		}
	}
	h.Count("connections", int64(len(all)))
	h.Max("mid_frame_at_once", int64(len(all)))
	c.Logf("mtu=%d %d connections mid frame at once, %d frames", mtu, len(all), done)
	c.Sig("many", mtu, len(all), done)
}

// TestC06conc: one goroutine per connection feeds the shared decoder (race build).
func TestC06conc(t *testing.T) {
	Plain(t, "C06conc", func(h *H) {
		n := h.N(250, 4000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				r := c.R
				mtu := []int{32, 64, 256}[r.Intn(3)]
				conns := 2 + r.Intn(5)
				type rec struct {
					b    []byte
					conn ustack.TransportConnection
				}
				// one list per connection, written only by its goroutine
				var lists sync.Map
				u := NewUnit(mtu, func(ctx ustack.Context) {
					v, ok := lists.Load(ctx.GetConnection())
					if !ok {
						c.Fail("a message is attributed to an unknown connection")
					}
					l := v.(*[]rec)
					*l = append(*l, rec{content(ctx.GetBuffer()), ctx.GetConnection()})
				}, func(ustack.Context) {}, ustack.NewFrameDecoder())
				var wg sync.WaitGroup
				start := make(chan struct{})
				for k := 0; k < conns; k++ {
					wg.Add(1)
					go func(k int, r *rand.Rand) {
						defer wg.Done()
						<-start
						for life := 0; life < 3; life++ {
							conn := NewMemConn("same")
							var l []rec
							lists.Store(ustack.TransportConnection(conn), &l)
							var msgs [][]byte
							for j := 0; j < 1+r.Intn(6); j++ {
								msgs = append(msgs, tagged(r, k, j, 1+msgSize(r, mtu-5)))
							}
							s := stream(msgs)
							if r.Intn(2) == 0 {
								s = s[:1+r.Intn(len(s))]
							}
							for _, seg := range cut(r, s, mtu) {
								u.Upw(ustack.NewUStackContext().SetConnection(conn).SetBuffer(rxBuf(mtu, seg)))
							}
							want := completeAt(ends(msgs), len(s))
							if len(l) != want {
								c.Fail("connection %d: %d messages delivered, %d complete", k, len(l), want)
							}
							for j := range l {
								if !bytes.Equal(l[j].b, msgs[j]) {
									c.Fail("connection %d: message %d delivered as %s, sent %s", k, j, short(l[j].b), short(msgs[j]))
								}
							}
							if conn.Closed() {
								c.Fail("connection %d was closed by a well-formed stream", k)
							}
							conn.Close()
							u.US.PublishEvent(ustack.Event{Type: ustack.UStackEventConnectionClosed, Data: conn})
						}
					}(k, rand.New(rand.NewSource(r.Int63())))
				}
				close(start)
				wg.Wait()
				h.Count("connections", int64(3*conns))
				c.Logf("mtu=%d goroutines=%d", mtu, conns)
				c.Sig(i, mtu, conns)
			})
		}
	})
}

// TestC06stack: whole stack, connections opened, cut off and replaced while others run.
func TestC06stack(t *testing.T) {
	Bubble(t, "C06stack", func(h *H) {
		n := h.N(150, 2500)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				r := c.R
				mtu := []int{32, 64, 256}[r.Intn(3)]
				ep := ustack.NewEndPoint("e", 0)
				N := NewNode(mtu, []ustack.DataProcessor{ustack.NewBytesCodec(), ustack.NewFrameDecoder()}, ep)
				type cs struct {
					conn  *MemConn
					msgs  [][]byte
					fed   int
					exact bool
					got   int
				}
				all := []*cs{}
				var wg sync.WaitGroup
				var order Bag[int]
				for k := 0; k < 3+r.Intn(6); k++ {
					s := &cs{conn: NewMemConn("same"), exact: true}
					for j := 0; j < 1+r.Intn(5); j++ {
						s.msgs = append(s.msgs, tagged(r, k, j, 1+msgSize(r, mtu-5)))
					}
					all = append(all, s)
					st := stream(s.msgs)
					endKind := r.Intn(4)
					if endKind > 0 {
						st = st[:r.Intn(len(st)+1)]
					}
					s.fed = len(st)
					if endKind == 3 {
						s.exact = false
					}
					wg.Add(1)
					go func(k int, r *rand.Rand) {
						defer wg.Done()
						time.Sleep(time.Duration(r.Intn(50)) * time.Millisecond)
						N.Tr.Push(s.conn)
						segs := cut(r, st, mtu)
						for j, seg := range segs {
							time.Sleep(time.Duration(r.Intn(4)) * time.Millisecond)
							if j == len(segs)-1 && endKind == 2 {
								// the last data comes along with the failure
								s.conn.Feed(Seg{Data: append([]byte(nil), seg...), Err: errors.New("reset")})
							} else {
								s.conn.FeedBytes(seg)
							}
							order.Add(k)
						}
						switch endKind {
						case 1:
							s.conn.Feed(Seg{Err: io.EOF})
						case 3:
							s.conn.Close()
						}
					}(k, rand.New(rand.NewSource(r.Int63())))
				}
				wg.Wait()
				got := drain(ep)
				for _, d := range got {
					b, _ := d.GetData().([]byte)
					if len(b) < 8 {
						c.Fail("delivered %s, which nobody sent", short(b))
					}
					k := int(binary.BigEndian.Uint32(b))
					if k >= len(all) {
						c.Fail("delivered %s, which nobody sent", short(b))
					}
					s := all[k]
					if d.GetConnection() != ustack.TransportConnection(s.conn) {
						c.Fail("a message of connection %d is attributed to another one", k)
					}
					if s.got >= len(s.msgs) || !bytes.Equal(b, s.msgs[s.got]) {
						c.Fail("connection %d: message %d delivered as %s", k, s.got, short(b))
					}
					s.got++
				}
				for k, s := range all {
					want := completeAt(ends(s.msgs), s.fed)
					if s.got > want || (s.exact && s.got != want) {
						c.Fail("connection %d: %d messages delivered, %d complete", k, s.got, want)
					}
				}
				h.Count("messages", int64(len(got)))
				h.Count("connections", int64(len(all)))
				c.Logf("mtu=%d segment order %v", mtu, order.All())
				c.Sig(mtu, order.All())
				N.Shut()
				Settle()
			})
		}
	})
}
