package harness

import (
	"fmt"
	"testing"

	"ustack"
)

// TestC07raw: no framing, each received segment is a message of its own; the chain is
// driven directly, so many more malformed messages are tried.
func TestC07raw(t *testing.T) {
	Plain(t, "C07raw", func(h *H) {
		n := h.N(6000, 100000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				r := c.R
				cd := codecs7()[r.Intn(6)]
				var hdrs []string
				for _, x := range r.Perm(4) {
					if r.Intn(2) == 0 {
						hdrs = append(hdrs, []string{"stat", "lb", "sess", "lb"}[x])
					}
				}
				procs := []ustack.DataProcessor{cd.mk()}
				for _, x := range hdrs {
					procs = append(procs, mkHdr(x))
				}
				type rec struct {
					msg  interface{}
					sess interface{}
				}
				var got []rec
				u := NewUnit(1024, func(ctx ustack.Context) {
					got = append(got, rec{ctx.GetMessage(), ctx.GetOption("session")})
				}, func(ustack.Context) {}, procs...)
				conn := NewMemConn("x")
				for k := 0; k < 8; k++ {
					valid := refHead(hdrs, r.Intn(3), cd.enc(cd.gen(r, 1+r.Intn(100))))
					if len(valid) > 1024 {
						continue
					}
					p := valid
					switch r.Intn(6) {
					case 0:
						p = randBytes(r, 1+r.Intn(60))
					case 1:
						p = valid[:r.Intn(len(valid)+1)]
					case 2, 3:
						p = append([]byte(nil), valid...)
						for f := 1 + r.Intn(3); f > 0; f-- {
							p[r.Intn(len(p))] = byte(r.Intn(256))
						}
					case 4:
						p = append(append([]byte(nil), valid...), valid...)
						if len(p) > 1024 {
							p = valid
						}
					}
					if len(p) == 0 {
						continue
					}
					c.Logf("%s %v %s", cd.name, hdrs, short(p))
					c.Tick()
					before := len(got)
					c.Guard("receive", func() {
						u.Upw(ustack.NewUStackContext().SetConnection(conn).SetBuffer(rxBuf(1024, p)))
					})
					o := refPipe(cd, hdrs, p)
					switch len(got) - before {
					case 0:
						if o.deliver {
							c.Fail("a well-formed message was not delivered: %s", short(p))
						}
					case 1:
						if !o.deliver && !o.may {
							c.Fail("delivered %.100v for a malformed message", got[before].msg)
						}
						if !sameMsg(got[before].msg, o.msg) {
							c.Fail("delivered %.100v, expected %.100v", got[before].msg, o.msg)
						}
					default:
						c.Fail("one message was delivered %d times", len(got)-before)
					}
					h.Count("messages", 1)
					h.Count("delivered", int64(len(got)-before))
				}
				c.Sig(cd.name, hdrs, hash64(c.hist))
			})
		}
	})
}
