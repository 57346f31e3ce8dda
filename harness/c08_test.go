package harness

import (
	"bufio"
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"sync"
	"testing"
	"testing/iotest"

	"ustack"
)

type ccap struct {
	bufs []*ustack.UBuf
	wire [][]byte
	msgs []interface{}
	ctxs []ustack.Context
}

func codecUnit(mtu, overhead int, cp ustack.DataProcessor) (*Unit, *ccap) {
	k := &ccap{}
	extra := NewProbe("extra")
	extra.overhead = overhead
	u := NewUnit(mtu, func(ctx ustack.Context) {
		k.msgs = append(k.msgs, ctx.GetMessage())
		k.ctxs = append(k.ctxs, ctx)
	}, func(ctx ustack.Context) {
		k.bufs = append(k.bufs, ctx.GetBuffer())
		k.wire = append(k.wire, content(ctx.GetBuffer()))
		k.ctxs = append(k.ctxs, ctx)
	}, cp, extra)
	return u, k
}

// scramble changes everything reachable from a message
func scramble(m interface{}) {
	switch x := m.(type) {
	case []byte:
		for i := range x {
			x[i] ^= 0xff
		}
	case *Obj:
		x.A++
		x.B = "scrambled"
		for i := range x.C {
			x.C[i] ^= 0xff
		}
		for k := range x.D {
			x.D[k] = -1
		}
		for i := range x.E {
			x.E[i]++
		}
		if x.F != nil {
			scramble(x.F)
		}
	}
}

// cloneVia gives the message the receiver must see, through the reference codec
func cloneVia(cd codecDef, m interface{}) interface{} {
	v, ok := cd.dec(append([]byte(nil), cd.enc(m)...))
	if !ok {
		panic("harness: reference codec")
	}
	return v
}

// sized makes a message whose encoding has exactly n bytes, if the codec can
func sized(cd codecDef, r *rand.Rand, n int) (interface{}, bool) {
	switch cd.name {
	case "bytes":
		return trickyBytes(r, n), n > 0
	case "string":
		return string(trickyBytes(r, n)), n > 0
	case "generic":
		if n < 5 {
			return nil, false
		}
		return trickyBytes(r, n-4), true
	case "json":
		base := len(cd.enc(Obj{}))
		if n < base+1 {
			return nil, false
		}
		return Obj{B: string(bytes.Repeat([]byte{'a' + byte(r.Intn(26))}, n-base))}, true
	case "gob":
		for l := 1; l < n; l++ {
			o := Obj{B: string(bytes.Repeat([]byte{'g'}, l)), A: 1}
			k := len(cd.enc(o))
			if k == n {
				return o, true
			}
			if k > n {
				return nil, false
			}
			if n-k > 8 {
				l += n - k - 8
			}
		}
	}
	return nil, false
}

func TestC08(t *testing.T) {
	Plain(t, "C08", func(h *H) {
		for i := 0; i < h.N(40, 4000); i++ {
			h.Case(fmt.Sprintf("loose-%d", i), c08loose)
		}
		// size boundary of every codec, for several MTUs and overheads
		for ci, cd := range codecs() {
			for _, mtu := range []int{300, 301, 512, 2048, 4096} {
				for _, ov := range []int{0, 1, 4, 13, 40} {
					h.Case(fmt.Sprintf("limit-%s-%d-%d", cd.name, mtu, ov), func(c *C) {
						c.Guard("codec", func() {
							cd := codecs()[ci]
							limit := mtu - ov
							for d := -12; d <= 12; d++ {
								m, ok := sized(cd, c.R, limit+d)
								if !ok {
									continue
								}
								u, k := codecUnit(mtu, ov, cd.mk())
								if u.US.GetOverhead() != ov {
									c.Fail("overhead %d, expected %d", u.US.GetOverhead(), ov)
								}
								u.Down(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetMessage(m))
								if d <= 0 {
									good := len(k.wire) == 1
									if good {
										v, ok := cd.dec(append([]byte(nil), k.wire[0]...))
										good = ok && sameMsg(v, cloneVia(cd, m))
									}
									if !good {
										c.Fail("a %s message of %d encoded bytes (limit %d) put %d messages on the wire", cd.name, limit+d, limit, len(k.wire))
									}
									if k.bufs[0].HeadWritableLength() < ov {
										c.Fail("only %d bytes of head room for %d of overhead", k.bufs[0].HeadWritableLength(), ov)
									}
									h.Count("fitting", 1)
								} else {
									if len(k.wire) != 0 {
										c.Fail("a %s message of %d encoded bytes (limit %d) was sent as %s", cd.name, limit+d, limit, short(k.wire[0]))
									}
									h.Count("too_long", 1)
								}
							}
							c.Sig(cd.name, mtu, ov)
						})
					})
				}
			}
		}
		// far too long
		for ci, cd := range codecs() {
			h.Case("huge-"+cd.name, func(c *C) {
				c.Guard("codec", func() {
					cd := codecs()[ci]
					for _, f := range []int{2, 3, 10, 100} {
						u, k := codecUnit(300, 4, cd.mk())
						var m interface{}
						switch cd.name {
						case "bytes", "generic":
							m = make([]byte, 300*f)
						case "string":
							m = string(make([]byte, 300*f))
						default:
							m = Obj{C: randBytes(c.R, 300*f)}
						}
						u.Down(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetMessage(m))
						if len(k.wire) != 0 {
							c.Fail("a %s message of %d bytes was sent over an MTU of 300", cd.name, 300*f)
						}
						h.Count("too_long", 1)
					}
					c.Sig(cd.name)
				})
			})
		}
		// long ones, there and back
		for ci, cd := range codecs() {
			for _, mtu := range []int{40000, 70000, 150000, 300000, 1 << 21} {
				h.Case(fmt.Sprintf("large-%s-%d", cd.name, mtu), func(c *C) {
					c.Guard("codec", func() {
						cd := codecs()[ci]
						ov := c.R.Intn(9)
						us, ks := codecUnit(mtu, ov, cd.mk())
						ur, kr := codecUnit(mtu, ov, cd.mk())
						for _, n := range []int{mtu - ov, mtu - ov - 1 - c.R.Intn(100), mtu / 2, mtu - ov} {
							m, ok := sized(cd, c.R, n)
							if !ok {
								continue
							}
							want := cloneVia(cd, m)
							ks.bufs, ks.wire, kr.msgs = nil, nil, nil
							us.Down(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetMessage(m))
							if len(ks.wire) != 1 {
								c.Fail("a %s message of %d encoded bytes (limit %d) put %d messages on the wire", cd.name, n, mtu-ov, len(ks.wire))
							}
							ur.Upw(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetBuffer(rxBuf(mtu, ks.wire[0])))
							if len(kr.msgs) != 1 || !sameMsg(kr.msgs[0], want) {
								c.Fail("a %s message of %d encoded bytes (limit %d) did not come out as it was", cd.name, n, mtu-ov)
							}
							h.Count("large_round_trips", 1)
						}
						c.Sig("large", cd.name, mtu, ov)
					})
				})
			}
		}
		// round trips, independence
		n := h.N(4000, 60000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("trip-%d", i), func(c *C) {
				c.Guard("codec", func() {
					r := c.R
					cd := codecs()[r.Intn(5)]
					ov := r.Intn(9)
					us, ks := codecUnit(1024, ov, cd.mk())
					ur, kr := codecUnit(1024, ov, cd.mk())
					var want []interface{}
					var wires [][]byte
					// the caller may use one object for all its messages, and say the same again
					reuse := r.Intn(2) == 0
					var shared Obj
					sharedB := make([]byte, 4096)
					seed, size := r.Int63(), 1+r.Intn(200)
					for j := 0; j < 1+r.Intn(6); j++ {
						if r.Intn(3) > 0 {
							seed, size = r.Int63(), 1+r.Intn(200)
						}
						m := cd.gen(rand.New(rand.NewSource(seed)), size)
						if o, ok := m.(Obj); ok && (reuse || r.Intn(2) == 0) {
							m = &o
							if reuse {
								shared = o
								m = &shared
							}
						}
						if b, ok := m.([]byte); ok && reuse && len(b) <= len(sharedB) {
							m = sharedB[:copy(sharedB, b)]
						}
						if len(cd.enc(m)) > 1024-ov {
							continue
						}
						want = append(want, cloneVia(cd, m))
						wires = append(wires, append([]byte(nil), cd.enc(m)...))
						us.Down(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetMessage(m))
						scramble(m) // the caller reuses its message
					}
					if len(ks.bufs) != len(want) {
						c.Fail("%d messages accepted, %d sent", len(want), len(ks.bufs))
					}
					for j := range want {
						if v, ok := cd.dec(content(ks.bufs[j])); !ok || !sameMsg(v, want[j]) {
							c.Fail("%s message %d is on the wire as %s, expected %s", cd.name, j, short(content(ks.bufs[j])), short(wires[j]))
						}
						rb := rxBuf(1024, content(ks.bufs[j]))
						ur.Upw(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetBuffer(rb))
						// the receive buffer is reused
						rb.Reset()
						rb.Write(bytes.Repeat([]byte{0xEE}, 1024))
					}
					if len(kr.msgs) != len(want) {
						c.Fail("%d messages sent, %d decoded", len(want), len(kr.msgs))
					}
					for j := range want {
						if !sameMsg(kr.msgs[j], want[j]) {
							c.Fail("%s message %d came out as %.200v, expected %.200v", cd.name, j, kr.msgs[j], want[j])
						}
					}
					// messages handed up are independent of each other
					for j := range want {
						scramble(kr.msgs[j])
						for l := j + 1; l < len(want); l++ {
							if !sameMsg(kr.msgs[l], want[l]) {
								c.Fail("%s: changing received message %d changed message %d", cd.name, j, l)
							}
						}
					}
					h.Count("round_trips", int64(len(want)))
					c.Logf("%s overhead=%d n=%d %.200v", cd.name, ov, len(want), want)
					c.Sig(cd.name, ov, fmt.Sprint(wires))
				})
			})
		}
		// wrong types, unencodable values, nil, refusing user functions
		type unenc struct{ C chan int }
		type otherT struct{ X func() }
		for ci, cd := range codecs() {
			h.Case("refuse-"+cd.name, func(c *C) {
				c.Guard("codec", func() {
					cd := codecs()[ci]
					bad := []interface{}{nil}
					switch cd.name {
					case "bytes", "generic":
						bad = append(bad, "text", 5, Obj{}, &Obj{}, []string{"x"}, [4]byte{1, 2, 3, 4})
					case "string":
						bad = append(bad, []byte("text"), 5, Obj{}, []rune{'x'})
					case "json":
						bad = append(bad, make(chan int), unenc{}, func() {}, map[string]interface{}{"a": make(chan int)})
					case "gob":
						bad = append(bad, make(chan int), func() {}, otherT{})
					}
					if cd.name == "bytes" {
						bad = append(bad, []byte{}, []byte(nil))
					}
					if cd.name == "string" {
						bad = append(bad, "")
					}
					u, k := codecUnit(1024, 4, cd.mk())
					for _, m := range bad {
						u.Down(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetMessage(m))
						if len(k.wire) != 0 {
							c.Fail("%s sent %s for the message %#v", cd.name, short(k.wire[0]), m)
						}
						h.Count("refused", 1)
					}
					m := cd.gen(c.R, 30)
					u.Down(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetMessage(m))
					if len(k.wire) != 1 {
						c.Fail("%s sent %d messages for a good one after refused ones", cd.name, len(k.wire))
					}
					c.Sig(cd.name)
				})
			})
		}
		// nothing to decode, as on a reference connection; nothing encoded, as without a codec
		for ci, cd := range codecs() {
			h.Case("missing-"+cd.name, func(c *C) {
				c.Guard("codec", func() {
					cd := codecs()[ci]
					u, k := codecUnit(1024, 4, cd.mk())
					u.Upw(ustack.NewUStackContext().SetConnection(NewMemConn("c")))
					u.Upw(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetMessage(cd.gen(c.R, 30)))
					if len(k.msgs) != 0 {
						c.Fail("%s delivered %#v for data without a buffer", cd.name, k.msgs[0])
					}
					u.Down(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetMessage(cd.gen(c.R, 30)))
					u.Upw(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetBuffer(rxBuf(1024, k.wire[0])))
					if len(k.wire) != 1 || len(k.msgs) != 1 {
						c.Fail("%s sent %d and delivered %d messages for one", cd.name, len(k.wire), len(k.msgs))
					}
					c.Sig(cd.name)
				})
			})
		}
		for i := 0; i < h.N(40, 200); i++ {
			h.Case(fmt.Sprintf("nocodec-%d", i), func(c *C) {
				r := c.R
				var procs []ustack.DataProcessor
				var names []string
				if r.Intn(2) == 0 {
					cd := codecs()[r.Intn(len(codecs()))]
					procs = append(procs, cd.mk().SetEnable(false))
					names = append(names, "off-"+cd.name)
				}
				for k := 1 + r.Intn(4); k > 0; k-- {
					n := []string{"frame", "hb", "stat", "lb", "sess"}[r.Intn(5)]
					names = append(names, n)
					switch n {
					case "frame":
						procs = append(procs, ustack.NewFrameDecoder())
					case "hb":
						procs = append(procs, ustack.NewHeartbeat())
					case "stat":
						procs = append(procs, ustack.NewStatCounter())
					default:
						procs = append(procs, mkHdr(n))
					}
				}
				c.Guard("processors without a codec", func() {
					n := 0
					u := NewUnit(256, func(ctx ustack.Context) { n++ }, func(ctx ustack.Context) {
						if b := content(ctx.GetBuffer()); len(b) > 0 {
							n++
						}
					}, procs...)
					for k := 0; k < 3; k++ {
						u.Down(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetMessage([]byte("data")))
					}
					if n != 0 {
						c.Fail("%v: sent something for a message nobody encoded", names)
					}
				})
				h.Count("refused", 3)
				c.Sig(names)
			})
		}
		h.Case("generic-functions", func(c *C) {
			c.Guard("generic codec", func() {
				inits := 0
				boom := errors.New("boom")
				cp := ustack.NewGenericCodec(func() { inits++ },
					func(m interface{}, w io.Writer) error {
						s := m.(string)
						w.Write([]byte(s))
						if s == "bad" {
							return boom
						}
						return nil
					},
					func(rd io.Reader) (interface{}, error) {
						b := make([]byte, 3)
						if _, err := io.ReadFull(rd, b); err != nil {
							return nil, err
						}
						if string(b) == "bad" {
							return string(b), boom
						}
						if string(b) == "nil" {
							return nil, nil
						}
						return string(b), nil
					})
				if inits != 1 {
					c.Fail("the init function ran %d times", inits)
				}
				u, k := codecUnit(64, 2, cp)
				for _, s := range []string{"abc", "bad", "xyz"} {
					u.Down(ustack.NewUStackContext().SetMessage(s))
				}
				if len(k.wire) != 2 || string(k.wire[0]) != "abc" || string(k.wire[1]) != "xyz" {
					c.Fail("generic codec sent %q", k.wire)
				}
				for _, s := range []string{"abc", "bad", "ab", "xyz"} {
					u.Upw(ustack.NewUStackContext().SetBuffer(rxBuf(64, []byte(s))))
				}
				if len(k.msgs) != 2 || k.msgs[0] != "abc" || k.msgs[1] != "xyz" {
					c.Fail("generic codec delivered %v", k.msgs)
				}
				// messages that come out of one read share a context
				k.msgs = nil
				ctx := ustack.NewUStackContext()
				for _, s := range []string{"abc", "nil", "bad", "ab", "xyz", "nil"} {
					u.Upw(ctx.SetBuffer(rxBuf(64, []byte(s))))
				}
				var whole []interface{}
				for _, m := range k.msgs {
					if m != nil {
						whole = append(whole, m)
					}
				}
				if len(whole) != 2 || whole[0] != "abc" || whole[1] != "xyz" {
					c.Fail("generic codec delivered %v for abc, nothing, a bad and a short message, xyz, nothing", whole)
				}
				for _, half := range []ustack.DataProcessor{ustack.NewGenericCodec(nil, nil, nil)} {
					u, k := codecUnit(64, 2, half)
					u.Down(ustack.NewUStackContext().SetMessage("x"))
					u.Upw(ustack.NewUStackContext().SetBuffer(rxBuf(64, []byte("x"))))
					if len(k.wire)+len(k.msgs) != 0 {
						c.Fail("a generic codec without functions passed data")
					}
				}
				c.Sig("generic")
			})
		})
		// the usual ways to read and write streams work in the functions of a generic codec
		for wi, wr := range streamWriters {
			for ri, rd := range streamReaders {
				h.Case(fmt.Sprintf("generic-stream-%d-%d", wi, ri), func(c *C) {
					c.Guard("generic codec", func() {
						cp := ustack.NewGenericCodec(nil,
							func(m interface{}, w io.Writer) error { return wr(m.([]byte), w) },
							func(r io.Reader) (interface{}, error) { return rd(r) })
						const mtu, ov = 700, 9
						for _, n := range []int{1, 2, 15, 16, 17, 511, 512, 513, mtu - ov - 1, mtu - ov, mtu - ov + 1, mtu, 5000} {
							u, k := codecUnit(mtu, ov, cp)
							m := trickyBytes(c.R, n)
							u.Down(ustack.NewUStackContext().SetMessage(m))
							if n > mtu-ov {
								if len(k.wire) != 0 {
									c.Fail("writer %d: %d bytes sent for a message of %d", wi, len(k.wire[0]), n)
								}
								continue
							}
							if len(k.wire) != 1 || !bytes.Equal(k.wire[0], m) {
								c.Fail("writer %d: message of %d bytes not sent intact (%d writes)", wi, n, len(k.wire))
							}
							u.Upw(ustack.NewUStackContext().SetBuffer(rxBuf(mtu, m)))
							if len(k.msgs) != 1 || !bytes.Equal(k.msgs[0].([]byte), m) {
								c.Fail("reader %d: message of %d bytes not delivered intact (%d delivered)", ri, n, len(k.msgs))
							}
							c.Sig(fmt.Sprint("stream", wi, ri, n))
						}
					})
				})
			}
		}
		// disabled: everything passes untouched
		for ci, cd := range codecs() {
			h.Case("disabled-"+cd.name, func(c *C) {
				c.Guard("disabled codec", func() {
					cd := codecs()[ci]
					u, k := codecUnit(256, 4, cd.mk().SetEnable(false))
					for _, m := range []interface{}{nil, "s", []byte{1}, 7, &Obj{}} {
						b := rxBuf(256, randBytes(c.R, 1+c.R.Intn(20)))
						before := content(b)
						for _, dir := range []func(ustack.Context){u.Down, u.Upw} {
							ctx := ustack.NewUStackContext().SetBuffer(b).SetMessage(m)
							k.ctxs = nil
							dir(ctx)
							if len(k.ctxs) != 1 || k.ctxs[0].GetBuffer() != b || !bytes.Equal(content(b), before) ||
								!sameMsg(k.ctxs[0].GetMessage(), m) {
								c.Fail("a disabled %s codec changed or dropped the data", cd.name)
							}
						}
					}
					c.Sig(cd.name)
					h.Count("passed", 10)
				})
			})
		}
	})
}

// TestC08conc: one codec used by several goroutines at once (race build).
func TestC08conc(t *testing.T) {
	Plain(t, "C08conc", func(h *H) {
		n := h.N(60, 1000)
		for i := 0; i < n; i++ {
			for ci, cd := range codecs() {
				h.Case(fmt.Sprintf("%s-%d", cd.name, i), func(c *C) {
					cd := codecs()[ci]
					var loop *Unit
					// whatever leaves below comes back from below at once
					type key struct{}
					u := NewUnit(2048, func(ctx ustack.Context) {
						want := ctx.GetOption("want")
						got := ctx.GetMessage()
						if !sameMsg(got, want) {
							c.Fail("%s: a message came out as %.150v, expected %.150v", cd.name, got, want)
						}
						*(ctx.GetOption("n").(*int))++
					}, func(ctx ustack.Context) {
						nctx := ustack.NewUStackContext().SetBuffer(rxBuf(2048, content(ctx.GetBuffer()))).
							SetOption("want", ctx.GetOption("want")).SetOption("n", ctx.GetOption("n"))
						loop.Upw(nctx)
					}, cd.mk())
					loop = u
					var wg sync.WaitGroup
					start := make(chan struct{})
					for g := 0; g < 4; g++ {
						wg.Add(1)
						go func(r *rand.Rand) {
							defer wg.Done()
							<-start
							cnt := 0
							for j := 0; j < 12; j++ {
								m := cd.gen(r, 1+r.Intn(100))
								want := cloneVia(cd, m)
								u.Down(ustack.NewUStackContext().SetMessage(m).SetOption("want", want).SetOption("n", &cnt))
								if cnt != j+1 {
									c.Fail("%s: message %d came out %d times", cd.name, j, cnt-j)
								}
							}
						}(rand.New(rand.NewSource(c.R.Int63())))
					}
					close(start)
					wg.Wait()
					h.Count("round_trips", 48)
					c.Sig(cd.name, i)
				})
			}
		}
	})
}

var _ = json.Marshal

// streamWriters write a message the way encoders do with an io.Writer
var streamWriters = []func(m []byte, w io.Writer) error{
	func(m []byte, w io.Writer) error { _, err := w.Write(m); return err },
	func(m []byte, w io.Writer) error {
		_, err := io.Copy(w, iotest.OneByteReader(bytes.NewReader(m)))
		return err
	},
	func(m []byte, w io.Writer) error {
		h := len(m) / 2
		_, err := io.Copy(w, io.MultiReader(bytes.NewReader(m[:h]), bytes.NewReader(m[h:])))
		return err
	},
	func(m []byte, w io.Writer) error {
		b := bufio.NewWriterSize(w, 100)
		if _, err := b.Write(m); err != nil {
			return err
		}
		return b.Flush()
	},
	func(m []byte, w io.Writer) error { _, err := bytes.NewBuffer(m).WriteTo(w); return err },
	func(m []byte, w io.Writer) error {
		b := bufio.NewWriterSize(w, 64)
		if _, err := b.ReadFrom(iotest.HalfReader(bytes.NewReader(m))); err != nil {
			return err
		}
		return b.Flush()
	},
	func(m []byte, w io.Writer) error {
		for _, x := range m {
			if _, err := w.Write([]byte{x}); err != nil {
				return err
			}
		}
		return nil
	},
}

// streamReaders read a message the way decoders do with an io.Reader
var streamReaders = []func(r io.Reader) ([]byte, error){
	io.ReadAll,
	func(r io.Reader) ([]byte, error) {
		var b bytes.Buffer
		_, err := io.Copy(&b, r)
		return b.Bytes(), err
	},
	func(r io.Reader) ([]byte, error) {
		var b bytes.Buffer
		_, err := b.ReadFrom(r)
		return b.Bytes(), err
	},
	func(r io.Reader) ([]byte, error) { return io.ReadAll(bufio.NewReaderSize(r, 100)) },
	func(r io.Reader) ([]byte, error) { return io.ReadAll(io.LimitReader(r, 1<<20)) },
	func(r io.Reader) ([]byte, error) {
		b := make([]byte, 4096)
		n, err := io.ReadFull(r, b)
		if err == io.ErrUnexpectedEOF {
			err = nil
		}
		return b[:n], err
	},
	func(r io.Reader) ([]byte, error) { return io.ReadAll(iotest.OneByteReader(r)) },
}
