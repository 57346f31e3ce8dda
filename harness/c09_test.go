package harness

import (
	"bytes"
	"encoding/gob"
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"testing"

	"ustack"
)

// padProbe is a header processor written by the harness: k bytes in front.
func padProbe(c *C, k int) *Probe {
	p := NewProbe("pad")
	p.overhead = k
	hdr := bytes.Repeat([]byte{0xC3}, k)
	p.OnUp = func(ctx ustack.Context) bool {
		ub := ctx.GetBuffer()
		return ub != nil && ub.WriteHeadBytes(hdr) == nil
	}
	p.OnLow = func(ctx ustack.Context) bool {
		b := make([]byte, k)
		n, _ := ctx.GetBuffer().Read(b)
		if n != k || !bytes.Equal(b, hdr) {
			c.Fail("a header of %d bytes arrived as %s", k, short(b[:n]))
		}
		return true
	}
	return p
}

func composition(c *C, names []string) []ustack.DataProcessor {
	var l []ustack.DataProcessor
	for _, n := range names {
		switch n {
		case "bytes":
			l = append(l, ustack.NewBytesCodec())
		case "string":
			l = append(l, ustack.NewStringCodec())
		case "any":
			l = append(l, anyCodec())
		case "json":
			l = append(l, ustack.NewJSONCodec(reflect.TypeOf("")))
		case "gob":
			l = append(l, ustack.NewGOBCodec(reflect.TypeOf("")))
		case "filter":
			l = append(l, ustack.NewFilter(func(ustack.Context, bool) bool { return true }))
		case "forwarder":
			l = append(l, ustack.NewForwarder(func(ustack.Context, bool) bool { return false }))
		case "pad1":
			l = append(l, padProbe(c, 1))
		case "pad7":
			l = append(l, padProbe(c, 7))
		case "pad200":
			l = append(l, padProbe(c, 200))
		case "pad30":
			l = append(l, padProbe(c, 30))
		default:
			if name, ok := strings.CutPrefix(n, "off-"); ok {
				l = append(l, mkHdr(name).SetEnable(false))
				break
			}
			l = append(l, mkHdr(n))
		}
	}
	return l
}

// exactMsg makes a message whose encoding by the codec has exactly n bytes.
func exactMsg(r *rand.Rand, codec string, n int) (msg interface{}, ok bool) {
	switch codec {
	case "string":
		return string(trickyBytes(r, n)), true
	case "json":
		if n < 2 {
			return nil, false
		}
		b := make([]byte, n-2)
		for i := range b {
			b[i] = byte('a' + r.Intn(26))
		}
		return string(b), true
	case "gob":
		for k := n - 3; k >= 0 && k > n-14; k-- {
			str := string(randBytes(r, k))
			var w bytes.Buffer
			if gob.NewEncoder(&w).Encode(str) == nil && w.Len() == n {
				return str, true
			}
		}
		return nil, false
	}
	return trickyBytes(r, n), true
}

// asBytes is the text or bytes of a sent or delivered message.
func asBytes(m interface{}) ([]byte, bool) {
	switch x := m.(type) {
	case []byte:
		return x, true
	case string:
		return []byte(x), true
	case *string:
		if x == nil {
			return nil, false
		}
		return []byte(*x), true
	}
	return nil, false
}

func randNames(r *rand.Rand) []string {
	pool := []string{"frame", "frame", "sess", "sess", "hb", "stat", "lb", "flow", "filter", "forwarder", "pad1", "pad7", "pad30", "pad200"}
	names := []string{"bytes"}
	k := r.Intn(8)
	if r.Intn(25) == 0 {
		k = 16 + r.Intn(30)
	}
	for ; k > 0; k-- {
		x := pool[r.Intn(len(pool))]
		if r.Intn(5) == 0 {
			switch x {
			case "frame", "sess", "hb", "stat", "flow":
				x = "off-" + x
			}
		}
		names = append(names, x)
	}
	return names
}

func TestC09(t *testing.T) {
	Bubble(t, "C09", func(h *H) {
		// every pair of header processors first, then random compositions
		singles := []string{"frame", "sess", "hb", "stat", "lb", "flow", "pad7", "off-frame", "off-hb", "off-stat", "off-sess"}
		var fixed [][]string
		fixed = append(fixed, []string{"bytes"})
		for _, a := range singles {
			fixed = append(fixed, []string{"bytes", a})
			for _, b := range singles {
				fixed = append(fixed, []string{"bytes", a, b})
			}
		}
		n := h.N(320, 5000)
		for i := 0; i < n+len(fixed); i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				r := c.R
				names := randNames(r)
				if i < len(fixed) {
					names = append([]string(nil), fixed[i]...)
				}
				names[0] = []string{"bytes", "json", "string", "any", "gob"}[r.Intn(5)]
				sum := 0
				for _, p := range composition(c, names) {
					sum += p.GetOverhead()
				}
				mtu := 0 // default
				eff := 2048
				switch r.Intn(4) {
				case 0:
					mtu = sum + r.Intn(4)
				case 1, 2:
					mtu = sum + 1 + r.Intn(300)
				}
				if i%16 == 15 {
					// lengths that need more than two bytes
					mtu = 65530 + r.Intn(40) + r.Intn(2)*(sum+r.Intn(70000))
				}
				if mtu == 0 && sum == 0 && r.Intn(2) == 0 {
					mtu = 64
				}
				if mtu != 0 {
					eff = mtu
				}
				ea, eb := ustack.NewEndPoint("a", 0), ustack.NewEndPoint("b", 0)
				A := NewNode(mtu, composition(c, names), ea)
				B := NewNode(mtu, composition(c, names), eb)
				if A.US.GetOverhead() != sum || B.US.GetOverhead() != sum {
					c.Fail("%v reports overhead %d, its processors' sum is %d", names, A.US.GetOverhead(), sum)
				}
				if A.US.GetMTU() != eff {
					c.Fail("MTU %d, configured %d", A.US.GetMTU(), eff)
				}
				var ab, ba Cutter
				if names[len(names)-1] == "frame" && r.Intn(2) == 0 {
					ab, ba = cutter(r.Int63(), eff), cutter(r.Int63(), eff)
				}
				ca, cb := Pair("x", "y", ab, ba)
				A.Tr.Push(ca)
				B.Tr.Push(cb)
				Settle()
				for _, w := range append(ca.Writes.Take(), cb.Writes.Take()...) { // first heartbeats
					if len(w) > eff {
						c.Fail("a control message of %d bytes on an MTU of %d", len(w), eff)
					}
				}
				limit := eff - sum
				sizes := []int{1, 2, limit - 1, limit, limit + 1, limit + 2, eff, eff + 1, limit + 3 + r.Intn(100), 1 + r.Intn(eff), limit, 1}
				c.Logf("%v mtu=%d overhead=%d", names, eff, sum)
				for k, sz := range sizes {
					c.Tick()
					if sz < 1 {
						continue
					}
					from, to, fc, tc := ea, eb, ca, cb
					if k%2 == 1 && r.Intn(2) == 0 {
						from, to, fc, tc = eb, ea, cb, ca
					}
					msg, ok := exactMsg(r, names[0], sz)
					if !ok {
						continue
					}
					p, _ := asBytes(msg)
					p = append([]byte(nil), p...)
					send(from, fc, msg)
					got := drain(to)
					wrote := fc.Writes.Take()
					if x := tc.Writes.Take(); len(x) != 0 {
						c.Fail("%v: the receiver wrote %s", names, short(x[0]))
					}
					if sz <= limit {
						if len(wrote) != 1 {
							c.Fail("%v mtu=%d: a message of %d bytes (limit %d) took %d writes", names, eff, sz, limit, len(wrote))
						}
						if len(wrote[0]) > eff {
							c.Fail("%v: a message of %d bytes took %d bytes on the wire, MTU %d", names, sz, len(wrote[0]), eff)
						}
						if len(got) != 1 {
							c.Fail("%v mtu=%d: a message of %d bytes (limit %d) was delivered %d times", names, eff, sz, limit, len(got))
						}
						b, ok := asBytes(got[0].GetData())
						if !ok || !bytes.Equal(b, p) {
							c.Fail("%v: a message of %d bytes arrived as %s", names, sz, short(b))
						}
						h.Count("fitting", 1)
						if sz == limit {
							h.Count("exactly_at_limit", 1)
						}
					} else {
						if len(wrote) != 0 || len(got) != 0 {
							c.Fail("%v mtu=%d: a message of %d bytes (limit %d) took %d writes and was delivered %d times", names, eff, sz, limit, len(wrote), len(got))
						}
						h.Count("too_long", 1)
					}
				}
				if ca.Closed() || cb.Closed() {
					c.Fail("%v: a connection was closed", names)
				}
				c.Sig(names, eff)
				A.Shut()
				B.Shut()
				Settle()
			})
		}
		// a header that does not fit: nothing leaves, the buffer is not sent without it
		for _, x := range []string{"frame", "sess", "hb", "stat", "lb"} {
			h.Case("nofit-"+x, func(c *C) {
				var out [][]byte
				u := NewUnit(256, func(ustack.Context) {}, func(ctx ustack.Context) { out = append(out, content(ctx.GetBuffer())) }, mkHdr(x))
				ov := u.US.GetOverhead()
				for room := 0; room <= ov; room++ {
					out = nil
					ub := ustack.UBufAllocWithHeadReserved(64, room)
					ub.Write([]byte("payload"))
					c.Guard("send", func() { u.Down(ustack.NewUStackContext().SetConnection(NewMemConn("c")).SetBuffer(ub)) })
					if room < ov && len(out) != 0 {
						c.Fail("%s sent %q with %d bytes of head room", x, out[0], room)
					}
					if room >= ov && (len(out) != 1 || len(out[0]) != ov+7) {
						c.Fail("%s did not send with enough head room", x)
					}
					h.Count("head_room_levels", 1)
				}
				c.Sig(x)
			})
		}
	})
}
