package harness

import (
	"bytes"
	"fmt"
	"testing"
	"time"

	"ustack"
)

// TestC08stack: endpoints of whole stacks send what no codec can or will take, or name no
// connection; nothing of it may reach the wire, and the messages around it must.
func TestC08stack(t *testing.T) {
	Bubble(t, "C08stack", func(h *H) {
		for i := 0; i < h.N(150, 3000); i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				r := c.R
				ci := r.Intn(len(codecs()) + 1) // the last: no codec at all
				var cd codecDef
				var procs []ustack.DataProcessor
				name := "none"
				if ci < len(codecs()) {
					cd = codecs()[ci]
					procs = append(procs, cd.mk())
					name = cd.name
				}
				var hdrs []string
				for _, x := range r.Perm(5) {
					if r.Intn(3) == 0 {
						x := []string{"stat", "lb", "sess", "frame", "flow"}[x]
						hdrs = append(hdrs, x)
						procs = append(procs, mkHdr(x))
					}
				}
				ep := ustack.NewEndPoint("e", 3)
				N := NewNode(512, procs, ep)
				conn, other := NewMemConn("x"), NewMemConn("x")
				N.Tr.Push(conn)
				N.Tr.Push(other)
				Settle()
				sent := 0
				send := func(d ustack.EndPointData) {
					ep.GetTxChannel() <- d
					time.Sleep(time.Second) // past any flow control
					Settle()
				}
				for k := 2 + r.Intn(8); k > 0; k-- {
					before := len(conn.Writes.All())
					kind := r.Intn(6)
					c.Logf("codec=%s below=%v kind=%d", name, hdrs, kind)
					good := false
					switch kind {
					case 0: // no connection
						var m interface{} = "x"
						if name != "none" {
							m = cd.gen(r, 1+r.Intn(50))
						}
						send(ustack.NewEndPointData().SetData(m))
					case 1: // no data
						send(ustack.NewEndPointData().SetConnection(conn))
					case 2: // neither
						send(ustack.NewEndPointData())
					case 3: // nothing takes functions
						send(ustack.NewEndPointData().SetConnection(conn).SetData(func() {}))
					default:
						if name == "none" {
							send(ustack.NewEndPointData().SetConnection(conn).SetData([]byte("hello")))
							break
						}
						good = true
						m := cd.gen(r, 1+r.Intn(50))
						body := cd.enc(m)
						send(ustack.NewEndPointData().SetConnection(conn).SetData(m))
						w := conn.Writes.All()
						if len(w) != before+1 || !bytes.HasSuffix(w[before], body) && name != "json" && name != "gob" {
							c.Fail("a message between refused ones was not sent intact (%d writes)", len(w)-before)
						}
						sent++
					}
					if !good && len(conn.Writes.All()) != before {
						c.Fail("a message that cannot be sent (kind %d) put %d writes on the wire", kind, len(conn.Writes.All())-before)
					}
				}
				if len(other.Writes.All()) != 0 {
					c.Fail("something was sent on a connection no message named")
				}
				if conn.Closed() || other.Closed() {
					c.Fail("a connection was closed")
				}
				h.Count("sent", int64(sent))
				c.Sig(name, hdrs, hash64(c.hist))
				N.Shut()
				Settle()
			})
		}
	})
}
