package harness

import (
	"encoding/binary"
	"fmt"
	"testing"

	"ustack"
)

var sessionPool = []int{0, 1, 2, 5, 5 + 256, 5 + 65536, 5 + 1<<24, 5 + 1<<31, 255, 256, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1<<32 - 2, 0x01000000, 0x7fffffff, 0xdeadbeef}

func TestC10(t *testing.T) {
	Bubble(t, "C10", func(h *H) {
		n := h.N(260, 4000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				r := c.R
				withSess := r.Intn(5) > 0
				names := []string{"bytes"}
				opt := []string{"sess"}
				if !withSess {
					opt = nil
				}
				for _, x := range []string{"hb", "stat", "flow"} {
					if r.Intn(4) == 0 {
						opt = append(opt, x)
					}
				}
				for _, k := range r.Perm(len(opt)) {
					names = append(names, opt[k])
				}
				names = append(names, "frame")
				mk := func() (*Node, []ustack.EndPoint) {
					var eps []ustack.EndPoint
					used := map[int]bool{}
					many := 0
					if r.Intn(8) == 0 {
						many = 10 + r.Intn(60)
					}
					for k := 0; k < many; k++ {
						used[100+k] = true
						eps = append(eps, ustack.NewEndPoint("same", 100+k))
					}
					for k := 1 + r.Intn(5); k > 0; k-- {
						s := sessionPool[r.Intn(len(sessionPool))]
						if r.Intn(6) == 0 {
							s = int(r.Uint32())
						}
						if used[s] {
							continue
						}
						used[s] = true
						eps = append(eps, ustack.NewEndPoint("same", s))
					}
					return NewNode(256, composition(c, names), eps...), eps
				}
				type msgKey struct{ node, ep, seq int }
				S, seps := mk()
				clients := 1 + r.Intn(4)
				type cl struct {
					N      *Node
					eps    []ustack.EndPoint
					cc, sc *MemConn
				}
				var cls []*cl
				for k := 0; k < clients; k++ {
					x := &cl{}
					x.N, x.eps = mk()
					var ab, ba Cutter
					if r.Intn(2) == 0 {
						ab, ba = cutter(r.Int63(), 200), cutter(r.Int63(), 200)
					}
					x.cc, x.sc = Pair("same", "same", ab, ba)
					x.N.Tr.Push(x.cc)
					S.Tr.Push(x.sc)
					cls = append(cls, x)
				}
				Settle()
				// expected[node][session] for node = client index or -1 for the server
				type expct struct {
					id   uint64
					conn ustack.TransportConnection
				}
				expected := map[string][]expct{}
				has := func(eps []ustack.EndPoint, s int) bool {
					for _, e := range eps {
						if e.GetSession() == s {
							return true
						}
					}
					return false
				}
				total, dropped := 0, 0
				var seq uint64
				post := func(ep ustack.EndPoint, conn ustack.TransportConnection, toNode int, toEps []ustack.EndPoint, rconn ustack.TransportConnection, dest int) {
					seq++
					id := seq
					b := make([]byte, 8+r.Intn(40))
					binary.BigEndian.PutUint64(b, id)
					d := ustack.NewEndPointData().SetConnection(conn).SetData(b)
					eff := ep.GetSession()
					switch {
					case dest >= 0:
						d.SetDestinationSession(dest)
						eff = dest
					case dest == -2: // set and cleared again
						d.SetDestinationSession(sessionPool[r.Intn(len(sessionPool))])
						d.ClearDestinationSession()
					}
					if !withSess {
						eff = 0
					}
					ep.GetTxChannel() <- d
					total++
					if has(toEps, eff) {
						k := fmt.Sprint(toNode, "/", eff)
						expected[k] = append(expected[k], expct{id, rconn})
					} else {
						dropped++
					}
				}
				pickDest := func(toEps []ustack.EndPoint) int {
					switch r.Intn(6) {
					case 0:
						return -1
					case 1:
						return -2
					case 2:
						return sessionPool[r.Intn(len(sessionPool))]
					case 3:
						return int(r.Uint32())
					}
					return toEps[r.Intn(len(toEps))].GetSession()
				}
				verify := func(what string) {
					for k, nd := range append([]*cl{{N: S, eps: seps}}, cls...) {
						for _, ep := range nd.eps {
							got := drain(ep)
							want := expected[fmt.Sprint(k-1, "/", ep.GetSession())]
							if len(got) != len(want) {
								c.Fail("%s: node %d session %d got %d messages, %d were addressed to it", what, k-1, ep.GetSession(), len(got), len(want))
							}
							// order is fixed per connection only
							byConn := map[ustack.TransportConnection][]uint64{}
							for _, w := range want {
								byConn[w.conn] = append(byConn[w.conn], w.id)
							}
							for _, g := range got {
								b, _ := g.GetData().([]byte)
								if len(b) < 8 {
									c.Fail("%s: node %d session %d got %s", what, k-1, ep.GetSession(), short(b))
								}
								id := binary.BigEndian.Uint64(b)
								l := byConn[g.GetConnection()]
								found := -1
								for x, w := range l {
									if w == id {
										found = x
										break
									}
								}
								if found < 0 {
									c.Fail("%s: node %d session %d got message %d, not addressed to it or attributed to the wrong connection", what, k-1, ep.GetSession(), id)
								}
								byConn[g.GetConnection()] = append(append([]uint64(nil), l[:found]...), l[found+1:]...)
							}
						}
					}
					expected = map[string][]expct{}
				}
				for k := 10 + r.Intn(50); k > 0; k-- {
					x := cls[r.Intn(len(cls))]
					if r.Intn(12) == 0 { // no connection at all
						send(x.eps[r.Intn(len(x.eps))], nil, []byte("12345678nowhere"))
					}
					if r.Intn(2) == 0 {
						ep := x.eps[r.Intn(len(x.eps))]
						post(ep, x.cc, -1, seps, x.sc, pickDest(seps))
					} else {
						ep := seps[r.Intn(len(seps))]
						ci := 0
						for j := range cls {
							if cls[j] == x {
								ci = j
							}
						}
						post(ep, x.sc, ci, x.eps, x.cc, pickDest(x.eps))
					}
				}
				Settle()
				// take one round of replies: answer on the connection each message came from
				type rep struct {
					conn ustack.TransportConnection
				}
				verify("addressed messages")
				for ci, x := range cls {
					if !has(seps, 0) && !withSess {
						break
					}
					to := 0
					if withSess {
						to = seps[r.Intn(len(seps))].GetSession()
					}
					seq++
					b := make([]byte, 8)
					binary.BigEndian.PutUint64(b, seq)
					sendTo(x.eps[0], x.cc, b, to)
					Settle()
					for _, ep := range seps {
						for _, g := range drain(ep) {
							if g.GetConnection() == nil {
								c.Fail("a message arrived without a connection")
							}
							post(ep, g.GetConnection(), ci, x.eps, x.cc, x.eps[0].GetSession())
							h.Count("replies", 1)
						}
					}
				}
				verify("replies")
				h.Count("messages", int64(total))
				h.Count("for_absent_sessions", int64(dropped))
				c.Logf("%v clients=%d server sessions=%v messages=%d dropped=%d", names, clients, sess(seps), total, dropped)
				c.Sig(names, clients, sess(seps), total, dropped)
				S.Shut()
				for _, x := range cls {
					x.N.Shut()
				}
				Settle()
			})
		}
		// many frames in one segment, for different sessions
		for i := 0; i < h.N(60, 600); i++ {
			h.Case(fmt.Sprintf("batch-%d", i), func(c *C) { c10batch(h, c) })
		}
		// every session number: boundary values one by one, both roles
		for _, s := range sessionPool {
			h.Case(fmt.Sprintf("session-%d", s), func(c *C) {
				other := (s + 1) % (1 << 32)
				names := []string{"bytes", "sess", "frame"}
				a := ustack.NewEndPoint("a", s)
				b, b2 := ustack.NewEndPoint("b", s), ustack.NewEndPoint("b2", other)
				A, B := NewNode(0, composition(c, names), a), NewNode(0, composition(c, names), b2, b)
				ca, cb := Pair("x", "x", nil, nil)
				A.Tr.Push(ca)
				B.Tr.Push(cb)
				Settle()
				send(a, ca, []byte("own"))
				sendTo(a, ca, []byte("other"), other)
				g1, g2 := drain(b), drain(b2)
				if len(g1) != 1 || string(g1[0].GetData().([]byte)) != "own" || len(g2) != 1 || string(g2[0].GetData().([]byte)) != "other" {
					c.Fail("session %d: %d delivered to it, %d to %d", s, len(g1), len(g2), other)
				}
				h.Count("messages", 2)
				c.Sig(s)
				A.Shut()
				B.Shut()
				Settle()
			})
		}
	})
}

func sess(eps []ustack.EndPoint) []int {
	var l []int
	for _, e := range eps {
		l = append(l, e.GetSession())
	}
	return l
}

// c10batch feeds streams cut without regard to frames: a segment holds parts of
// several messages for different sessions, absent sessions and malformed frames.
func c10batch(h *H, c *C) {
	r := c.R
	var eps []ustack.EndPoint
	used := map[int]bool{}
	for len(eps) == 0 || r.Intn(5) > 0 {
		s := sessionPool[r.Intn(len(sessionPool))]
		if len(eps) == 0 && r.Intn(2) == 0 {
			s = 0
		}
		if !used[s] {
			used[s] = true
			eps = append(eps, ustack.NewEndPoint("same", s))
		}
	}
	names := []string{"bytes", "sess"}
	below := r.Intn(3) == 0
	if below {
		names = append(names, "stat")
	}
	names = append(names, "frame")
	mtu := 64 + r.Intn(2000)
	N := NewNode(mtu, composition(c, names), eps...)
	want := map[int]map[int][]uint64{} // session -> connection -> ids
	var conns []*MemConn
	var segs [][][]byte
	var id uint64
	total, absent := 0, 0
	for k := 1 + r.Intn(3); k > 0; k-- {
		cn := NewMemConn("same")
		ci := len(conns)
		conns = append(conns, cn)
		N.Tr.Push(cn)
		var stream []byte
		for m := 5 + r.Intn(60); m > 0; m-- {
			s := sessionPool[r.Intn(len(sessionPool))]
			if r.Intn(3) > 0 {
				s = eps[r.Intn(len(eps))].GetSession()
			}
			id++
			b := append(be32(uint32(s)), make([]byte, 8+r.Intn(20))...)
			binary.BigEndian.PutUint64(b[4:], id)
			if r.Intn(10) == 0 { // too short for a session
				b = b[:r.Intn(4)]
			} else if used[s] {
				if want[s] == nil {
					want[s] = map[int][]uint64{}
				}
				want[s][ci] = append(want[s][ci], id)
				total++
			} else {
				absent++
			}
			if below {
				b = append([]byte{upTag("stat")}, b...)
			}
			stream = append(stream, frame(b)...)
		}
		segs = append(segs, cut(r, stream, mtu))
	}
	Settle()
	for more := true; more; {
		more = false
		for ci, cn := range conns {
			if len(segs[ci]) > 0 {
				k := 1 + r.Intn(len(segs[ci]))
				cn.FeedBytes(segs[ci][:k]...)
				segs[ci] = segs[ci][k:]
				more = true
			}
		}
		if r.Intn(2) == 0 {
			Settle()
		}
	}
	for _, ep := range eps {
		s := ep.GetSession()
		got := map[int][]uint64{}
		for _, g := range drain(ep) {
			b, _ := g.GetData().([]byte)
			if len(b) < 8 {
				c.Fail("session %d got %s", s, short(b))
			}
			ci := -1
			for k, cn := range conns {
				if g.GetConnection() == ustack.TransportConnection(cn) {
					ci = k
				}
			}
			got[ci] = append(got[ci], binary.BigEndian.Uint64(b))
		}
		for ci := -1; ci < len(conns); ci++ {
			if fmt.Sprint(got[ci]) != fmt.Sprint(want[s][ci]) {
				c.Fail("session %d of %v got messages %v of connection %d, %v were sent to it there", s, sess(eps), got[ci], ci, want[s][ci])
			}
		}
	}
	h.Count("messages", int64(total+absent))
	h.Count("for_absent_sessions", int64(absent))
	c.Logf("mtu=%d sessions=%v connections=%d delivered=%d absent=%d", mtu, sess(eps), len(conns), total, absent)
	c.Sig(mtu, sess(eps), len(conns), total, absent)
	N.Shut()
	Settle()
}
