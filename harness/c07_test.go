package harness

import (
	"bytes"
	"encoding/binary"
	"encoding/gob"
	"encoding/json"
	"errors"
	"fmt"
	"hash/crc32"
	"io"
	"math/rand"
	"reflect"
	"runtime/metrics"
	"testing"
	"time"

	"ustack"
)

// Obj is the message type of the JSON and gob codecs.
type Obj struct {
	A int
	B string
	C []byte
	D map[string]int
	E []int64
	F *Obj
}

func randObj(r *rand.Rand, depth int) Obj {
	if r.Intn(10) == 0 {
		return Obj{} // nothing but zero values
	}
	o := Obj{A: r.Intn(1 << 30), B: string(randBytesASCII(r, r.Intn(12)))}
	switch r.Intn(6) {
	case 0:
		o.A = -o.A
	case 1:
		o.A = []int{1<<53 + 1, 1<<63 - 1, -1 << 63, 0}[r.Intn(4)]
	case 2:
		o.B = []string{"<&>\"'\\", "\u2028 \u00e9\u4e16", "\x00\x7f\n", "null"}[r.Intn(4)]
	}
	if r.Intn(2) == 0 {
		o.C = randBytes(r, 1+r.Intn(8))
	}
	if r.Intn(2) == 0 {
		o.D = map[string]int{"k": r.Intn(100)}
	}
	for k := r.Intn(4); k > 0; k-- {
		o.E = append(o.E, r.Int63())
	}
	if depth > 0 && r.Intn(3) == 0 {
		f := randObj(r, depth-1)
		o.F = &f
	}
	return o
}

func randBytesASCII(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(' ' + r.Intn(95))
	}
	return b
}

// codecDef is one codec with an independent reference implementation.
type codecDef struct {
	name string
	mk   func() ustack.DataProcessor
	// gen makes an application message whose encoding is about size bytes
	gen func(r *rand.Rand, size int) interface{}
	enc func(m interface{}) []byte
	// dec gives the message the receiving application must see, or false
	dec func(b []byte) (interface{}, bool)
}

func crcFrame(p []byte) []byte {
	return append(be32(crc32.ChecksumIEEE(p)), p...)
}

var objType = reflect.TypeOf(Obj{})

func codecs() []codecDef {
	return []codecDef{
		{"bytes", ustack.NewBytesCodec,
			func(r *rand.Rand, size int) interface{} { return trickyBytes(r, max(1, size)) },
			func(m interface{}) []byte { return m.([]byte) },
			func(b []byte) (interface{}, bool) { return append([]byte(nil), b...), len(b) > 0 }},
		{"string", ustack.NewStringCodec,
			func(r *rand.Rand, size int) interface{} { return string(trickyBytes(r, max(1, size))) },
			func(m interface{}) []byte { return []byte(m.(string)) },
			func(b []byte) (interface{}, bool) { return string(b), len(b) > 0 }},
		{"json", func() ustack.DataProcessor { return ustack.NewJSONCodec(objType) },
			func(r *rand.Rand, size int) interface{} {
				o := randObj(r, 1)
				if size > 60 && r.Intn(2) == 0 {
					o = Obj{B: string(bytes.Repeat([]byte("x"), size-50))}
				}
				return o
			},
			func(m interface{}) []byte { b, _ := json.Marshal(m); return b },
			func(b []byte) (interface{}, bool) {
				o := new(Obj)
				if len(b) == 0 || json.Unmarshal(b, o) != nil {
					return nil, false
				}
				return o, true
			}},
		{"gob", func() ustack.DataProcessor { return ustack.NewGOBCodec(objType) },
			func(r *rand.Rand, size int) interface{} { return randObj(r, 1) },
			func(m interface{}) []byte {
				var w bytes.Buffer
				if gob.NewEncoder(&w).Encode(m) != nil {
					return nil
				}
				return w.Bytes()
			},
			func(b []byte) (interface{}, bool) {
				o := new(Obj)
				if gob.NewDecoder(bytes.NewReader(b)).Decode(o) != nil {
					return nil, false
				}
				return o, true
			}},
		{"generic", func() ustack.DataProcessor {
			return ustack.NewGenericCodec(nil,
				func(m interface{}, w io.Writer) error {
					b, ok := m.([]byte)
					if !ok {
						return errors.New("type")
					}
					if _, err := w.Write(crcFrame(b)); err != nil {
						return err
					}
					return nil
				},
				func(rd io.Reader) (interface{}, error) {
					b, err := io.ReadAll(rd)
					if err != nil {
						// a short read at the end of the buffer also counts as the end
						if len(b) == 0 {
							return nil, err
						}
					}
					if len(b) < 4 || binary.BigEndian.Uint32(b) != crc32.ChecksumIEEE(b[4:]) {
						return nil, errors.New("crc")
					}
					return b[4:], nil
				})
		},
			func(r *rand.Rand, size int) interface{} { return trickyBytes(r, max(1, size-4)) },
			func(m interface{}) []byte { return crcFrame(m.([]byte)) },
			func(b []byte) (interface{}, bool) {
				if len(b) < 4 || binary.BigEndian.Uint32(b) != crc32.ChecksumIEEE(b[4:]) {
					return nil, false
				}
				return append([]byte(nil), b[4:]...), true
			}},
	}
}

// codecs7 adds a codec that takes whatever it is given, also nothing at all.
func codecs7() []codecDef {
	return append(codecs(), codecDef{"any", anyCodec,
		func(r *rand.Rand, size int) interface{} { return trickyBytes(r, max(1, size)) },
		func(m interface{}) []byte { return m.([]byte) },
		func(b []byte) (interface{}, bool) { return append([]byte(nil), b...), true }})
}

func sameMsg(got, want interface{}) bool {
	gb, ok1 := got.([]byte)
	wb, ok2 := want.([]byte)
	if ok1 && ok2 {
		return bytes.Equal(gb, wb)
	}
	return reflect.DeepEqual(got, want)
}

// outcome of the reference pipeline for one frame payload
type outcome struct {
	deliver bool // must be delivered
	may     bool // unspecified: may be delivered
	session int
	msg     interface{}
}

// refPipe computes what a stack [codec, hdrs..., frame] delivers for one payload.
func refPipe(cd codecDef, hdrs []string, p []byte) outcome {
	may := false
	session := 0
	for i := len(hdrs) - 1; i >= 0; i-- {
		switch hdrs[i] {
		case "hb":
			if len(p) == 0 || p[0] == ustack.HeartbeatSelfMessageTag {
				return outcome{}
			}
			if p[0] != ustack.HeartbeatUplayerMessageTag {
				may = true
			}
			p = p[1:]
		case "stat":
			if len(p) == 0 || p[0] == ustack.StatCounterSelfMessageReqTag || p[0] == ustack.StatCounterSelfMessageResTag {
				return outcome{}
			}
			if p[0] != ustack.StatCounterUplayerMessageTag {
				may = true
			}
			p = p[1:]
		case "lb": // disabled
			if len(p) == 0 {
				return outcome{}
			}
			if p[0] != ustack.LoadBalancerUplayerMessageTag {
				may = true
			}
			p = p[1:]
		case "sess":
			if len(p) < 4 {
				return outcome{}
			}
			session = int(binary.BigEndian.Uint32(p))
			p = p[4:]
		}
	}
	m, ok := cd.dec(p)
	if !ok {
		return outcome{}
	}
	if cd.name == "any" && len(p) == 0 {
		may = true
	}
	return outcome{deliver: !may, may: may, session: session, msg: m}
}

func refHead(hdrs []string, session int, p []byte) []byte {
	for _, x := range hdrs {
		switch x {
		case "hb", "stat", "lb":
			p = append([]byte{upTag(x)}, p...)
		case "sess":
			p = append(be32(uint32(session)), p...)
		}
	}
	return p
}

func mkHdr(x string) ustack.DataProcessor {
	switch x {
	case "hb":
		return ustack.NewHeartbeat()
	case "stat":
		return ustack.NewStatCounter()
	case "lb":
		return ustack.NewLoadBalancer().SetEnable(false)
	case "sess":
		return ustack.NewSessionResolver()
	case "frame":
		return ustack.NewFrameDecoder()
	case "flow":
		return ustack.NewFlowController()
	}
	panic(x)
}

var errGarbage = errors.New("connection reset by peer")

// matchOut checks a delivered sequence against must/may outcomes.
func matchOut(got []interface{}, want []outcome) (bool, string) {
	at := map[int]bool{0: true} // how many of got may be explained so far
	for k, w := range want {
		next := map[int]bool{}
		last := 0
		for i := range at {
			if i < len(got) && sameMsg(got[i], w.msg) {
				next[i+1] = true
			}
			if !w.deliver {
				next[i] = true
			}
			last = max(last, i)
		}
		if len(next) == 0 {
			g := "nothing"
			if last < len(got) {
				g = fmt.Sprintf("%.200v", got[last])
			}
			return false, fmt.Sprintf("expected message %d = %.200v, got %s", k, w.msg, g)
		}
		at = next
	}
	if !at[len(got)] {
		last := 0
		for i := range at {
			last = max(last, i)
		}
		return false, fmt.Sprintf("delivered %.200v, which is not the decoding of any complete message", got[last])
	}
	return true, ""
}

// heapAllocs is the number of bytes this process ever allocated.
func heapAllocs() uint64 {
	s := []metrics.Sample{{Name: "/gc/heap/allocs:bytes"}}
	metrics.Read(s)
	if s[0].Value.Kind() != metrics.KindUint64 {
		return 0
	}
	return s[0].Value.Uint64()
}

func TestC07(t *testing.T) {
	Bubble(t, "C07", func(h *H) {
		// no framing: each piece received is a message, and the end of the stream is none
		for i := 0; i < h.N(80, 1500); i++ {
			h.Case(fmt.Sprintf("unframed-%d", i), func(c *C) {
				r := c.R
				cd := codecs7()[[]int{0, 1, 4, 5, 5, 5}[r.Intn(6)]]
				var hdrs []string
				procs := []ustack.DataProcessor{cd.mk()}
				for _, x := range r.Perm(3) {
					if r.Intn(3) == 0 {
						hdrs = append(hdrs, []string{"hb", "stat", "lb"}[x])
						procs = append(procs, mkHdr(hdrs[len(hdrs)-1]))
					}
				}
				ep := ustack.NewEndPoint("e", 0)
				N := NewNode(512, procs, ep)
				conn := NewMemConn("x")
				N.Tr.Push(conn)
				Settle()
				var want []outcome
				for k := r.Intn(6); k > 0; k-- {
					p := refHead(hdrs, 0, cd.enc(cd.gen(r, 1+r.Intn(100))))
					if r.Intn(3) == 0 {
						p = randBytes(r, 1+r.Intn(20))
					}
					want = append(want, refPipe(cd, hdrs, p))
					conn.FeedBytes(p)
					if r.Intn(2) == 0 {
						Settle()
					}
				}
				end := r.Intn(4)
				c.Logf("codec=%s headers=%v messages=%d end=%d", cd.name, hdrs, len(want), end)
				Settle()
				switch end {
				case 0:
					conn.Feed(Seg{Err: io.EOF})
				case 1:
					conn.Feed(Seg{Err: errGarbage})
				case 2:
					conn.Close()
				case 3: // the last piece comes with the error
					p := refHead(hdrs, 0, cd.enc(cd.gen(r, 1+r.Intn(100))))
					want = append(want, refPipe(cd, hdrs, p))
					conn.Feed(Seg{Data: p, Err: io.EOF})
				}
				Settle()
				var got []interface{}
				for _, d := range drain(ep) {
					got = append(got, d.GetData())
				}
				var w []outcome
				for _, o := range want {
					if o.deliver || o.may {
						w = append(w, o)
					}
				}
				if ok, why := matchOut(got, w); !ok {
					c.Fail("unframed connection: %s", why)
				}
				h.Count("unframed_messages", int64(len(want)))
				c.Sig("unframed", cd.name, hdrs, len(want), end, hash64(c.hist))
				N.Shut()
				Settle()
			})
		}
		// announced lengths alone take no memory
		for i := 0; i < h.N(12, 120); i++ {
			h.Case(fmt.Sprintf("announce-%d", i), func(c *C) {
				r := c.R
				mtu := []int{300, 2048}[r.Intn(2)]
				ep := ustack.NewEndPoint("e", 0)
				N := NewNode(mtu, []ustack.DataProcessor{ustack.NewBytesCodec(), ustack.NewFrameDecoder()}, ep)
				Settle()
				a0 := heapAllocs()
				n := 20 + r.Intn(40)
				for k := 0; k < n; k++ {
					conn := NewMemConn("x")
					N.Tr.Push(conn)
					l := uint32(1<<24 + r.Int63n(1<<32-1<<24))
					if r.Intn(2) == 0 {
						l = uint32(1<<23) << uint(r.Intn(9))
					}
					p := append(be32(l), randBytes(r, r.Intn(50))...)
					for _, q := range cut(r, p, mtu) {
						conn.FeedBytes(q)
						Settle()
					}
					if !conn.Closed() {
						c.Fail("a frame of %d bytes was announced, the connection stays open", l)
					}
				}
				if a := heapAllocs() - a0; a > 1<<26 {
					c.Fail("%d connections that only announced large frames made the stack allocate %d bytes", n, a)
				}
				if len(drain(ep)) > 0 {
					c.Fail("a part of an oversized frame was delivered")
				}
				h.Count("announced", int64(n))
				c.Sig("announce", n, mtu, hash64(c.hist))
				N.Shut()
				Settle()
			})
		}
		n := h.N(1500, 20000)
		sessions := []int{0, 7, 1<<32 - 1}
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				r := c.R
				alloc0 := heapAllocs()
				cd := codecs7()[r.Intn(6)]
				var hdrs []string
				for _, x := range r.Perm(4) {
					if r.Intn(2) == 0 {
						hdrs = append(hdrs, []string{"hb", "stat", "lb", "sess"}[x])
					}
				}
				mtu := []int{300, 512, 2048}[r.Intn(3)]
				cacheCap := 2 * mtu
				fd := ustack.NewFrameDecoder()
				if r.Intn(2) == 0 {
					cacheCap = mtu + r.Intn(mtu)
					fd.SetOption("CacheCapacity", cacheCap)
				}
				procs := []ustack.DataProcessor{cd.mk()}
				for _, x := range hdrs {
					procs = append(procs, mkHdr(x))
				}
				procs = append(procs, fd)
				var eps []ustack.EndPoint
				for _, s := range sessions {
					eps = append(eps, ustack.NewEndPoint("e", s))
				}
				N := NewNode(mtu, procs, eps...)
				hostile, victim := NewMemConn("x"), NewMemConn("x")
				N.Tr.Push(hostile)
				N.Tr.Push(victim)
				Settle()

				hasSess := false
				for _, x := range hdrs {
					hasSess = hasSess || x == "sess"
				}
				pickSess := func() int {
					if !hasSess {
						return 0
					}
					return sessions[r.Intn(3)]
				}
				// hostile stream
				var s []byte
				var want []outcome
				bad := false
				kinds := []int{}
				for k := 1 + r.Intn(14); k > 0 && !bad; k-- {
					kind := r.Intn(9)
					kinds = append(kinds, kind)
					valid := refHead(hdrs, pickSess(), cd.enc(cd.gen(r, 1+r.Intn(80))))
					if len(valid) > mtu-4 {
						valid = refHead(hdrs, pickSess(), cd.enc(cd.gen(r, 3)))
					}
					var p []byte
					switch kind {
					case 0, 1:
						p = valid
					case 2:
						p = randBytes(r, r.Intn(40))
					case 3: // truncated
						p = valid[:r.Intn(len(valid)+1)]
					case 4: // corrupted
						p = append([]byte(nil), valid...)
						for f := 1 + r.Intn(4); f > 0; f-- {
							p[r.Intn(len(p))] ^= 1 << uint(r.Intn(8))
						}
					case 5: // headers fine, body garbage
						p = refHead(hdrs, pickSess(), randBytes(r, r.Intn(60)))
					case 6:
						p = nil
					case 7: // trailing junk
						p = append(append([]byte(nil), valid...), randBytes(r, 1+r.Intn(10))...)
					case 8:
						if r.Intn(3) > 0 {
							p = valid
							break
						}
						// larger than the receiver can ever hold
						l := []uint32{uint32(cacheCap - 3), uint32(cacheCap + 1 + r.Intn(1000)), 0x7fffffff, 0x80000000, 0xffffffff, 0xfffffffc, 0x00ffffff, uint32(r.Int63n(1<<32-8000) + 8000), uint32(8000 + r.Intn(8000)<<uint(r.Intn(18)))}[r.Intn(9)]
						s = append(s, be32(l)...)
						s = append(s, randBytes(r, r.Intn(200))...)
						for k := r.Intn(3); k > 0; k-- {
							s = append(s, frame(valid)...) // must not be delivered any more
						}
						bad = true
					}
					if bad {
						break
					}
					s = append(s, frame(p)...)
					if o := refPipe(cd, hdrs, p); o.deliver || o.may {
						want = append(want, o)
					}
				}
				end := r.Intn(4)
				partial := 0
				if !bad && end > 0 && r.Intn(2) == 0 { // disconnect inside a frame
					v := frame(refHead(hdrs, pickSess(), cd.enc(cd.gen(r, 20))))
					if len(v) <= mtu {
						partial = r.Intn(len(v))
						s = append(s, v[:partial]...)
					}
				}
				segs := cut(r, s, mtu)
				c.Logf("codec=%s headers=%v mtu=%d cache=%d kinds=%v oversized=%v end=%d partial=%d segments=%v",
					cd.name, hdrs, mtu, cacheCap, kinds, bad, end, partial, lens(segs))
				// the victim's traffic runs in between
				var vwant []outcome
				var got = map[int][]interface{}{}
				var vgot = map[int][]interface{}{}
				collect := func() {
					Settle()
					for k, ep := range eps {
						for _, d := range drain(ep) {
							switch d.GetConnection() {
							case ustack.TransportConnection(hostile):
								got[sessions[k]] = append(got[sessions[k]], d.GetData())
							case ustack.TransportConnection(victim):
								vgot[sessions[k]] = append(vgot[sessions[k]], d.GetData())
							default:
								c.Fail("a message came from an unknown connection")
							}
						}
					}
				}
				for j, seg := range segs {
					if end == 2 && j == len(segs)-1 {
						hostile.Feed(Seg{Data: append([]byte(nil), seg...), Err: errGarbage})
					} else {
						hostile.FeedBytes(seg)
					}
					if j%3 == 0 && len(vwant) < 12 {
						sess := pickSess()
						p := refHead(hdrs, sess, cd.enc(cd.gen(r, 1+r.Intn(60))))
						if len(p) <= mtu-4 {
							vwant = append(vwant, refPipe(cd, hdrs, p))
							victim.FeedBytes(cut(r, frame(p), mtu)...)
						}
					}
					if r.Intn(8) == 0 {
						collect()
					}
				}
				if end == 1 {
					hostile.Feed(Seg{Err: io.EOF})
				}
				collect()
				sel := func(l []outcome, s int) []outcome {
					var o []outcome
					for _, x := range l {
						if x.session == s {
							o = append(o, x)
						}
					}
					return o
				}
				for _, s := range sessions {
					if ok, why := matchOut(got[s], sel(want, s)); !ok {
						c.Fail("hostile connection, session %d: %s", s, why)
					}
					if ok, why := matchOut(vgot[s], sel(vwant, s)); !ok {
						c.Fail("another connection's traffic was affected, session %d: %s", s, why)
					}
				}
				if bad {
					if !hostile.Closed() {
						c.Fail("an oversized frame did not close the connection")
					}
					if N.EventsFor(ustack.UStackEventConnectionClosed, ustack.TransportConnection(hostile)) != 1 {
						c.Fail("no closed event after an oversized frame")
					}
					h.Count("oversized", 1)
				} else if end == 0 || (end == 3) {
					if hostile.Closed() {
						c.Fail("the connection was closed although no frame was oversized")
					}
				}
				if victim.Closed() {
					c.Fail("another connection was closed")
				}
				if a := heapAllocs() - alloc0; a > 1<<28 {
					c.Fail("%d bytes from a peer made the stack allocate %d bytes", len(s), a)
				} else {
					h.Max("max_allocated_bytes_per_case", int64(a))
				}
				// still accepting
				late := NewMemConn("x")
				N.Tr.Push(late)
				sess := pickSess()
				p := refHead(hdrs, sess, cd.enc(cd.gen(r, 5)))
				late.FeedBytes(frame(p))
				time.Sleep(time.Millisecond)
				Settle()
				found := 0
				for k, ep := range eps {
					for _, d := range drain(ep) {
						if d.GetConnection() != ustack.TransportConnection(late) || sessions[k] != sess ||
							!sameMsg(d.GetData(), refPipe(cd, hdrs, p).msg) {
							c.Fail("unexpected delivery after the hostile stream: %.100v", d.GetData())
						}
						found++
					}
				}
				if found != 1 {
					c.Fail("a new connection's message was delivered %d times after the hostile stream", found)
				}
				h.Count("hostile_bytes", int64(len(s)))
				h.Count("delivered", int64(len(got[0])+len(got[7])+len(got[1<<32-1])))
				h.Count("dropped_messages", int64(len(kinds)-len(want)))
				c.Sig(cd.name, hdrs, mtu, cacheCap, kinds, lens(segs))
				N.Shut()
				Settle()
			})
		}
	})
}
