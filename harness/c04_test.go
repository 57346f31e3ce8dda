package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"testing"

	"ustack"
)

type member struct {
	u *ustack.UBuf
	m *mbuf
}

func snapType(r *rand.Rand) (int, string) {
	if r.Intn(4) == 0 {
		return ustack.UBufSnapshotTypeCopyDirectly, "copy"
	}
	return ustack.UBufSnapshotTypeCopyOnWrite, "cow"
}

func anyStep(c *C, r *rand.Rand, u *ustack.UBuf, m *mbuf) {
	switch r.Intn(4) {
	case 0:
		intStep(c, r, u, m, &ints[r.Intn(len(ints))], r.Intn(4))
	case 1:
		transferStep(c, r, u, m)
	default:
		bulkStep(c, r, u, m)
	}
}

// TestC04seq: histories over families of snapshots, one goroutine.
func TestC04seq(t *testing.T) {
	Plain(t, "C04seq", func(h *H) {
		n := h.N(4000, 60000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				c.Guard("snapshot history", func() {
					r := c.R
					u, m, how := makeBuf(c, r)
					if m.cap > 6000 {
						return
					}
					c.Logf("b0=%s", how)
					fam := []member{{u, m}}
					for s := 0; s < 6; s++ {
						bulkStep(c, r, u, m)
					}
					steps := 30 + r.Intn(60)
					for s := 0; s < steps; s++ {
						i := r.Intn(len(fam))
						b := fam[i]
						if len(fam) < 7 && r.Intn(5) == 0 {
							typ, tn := snapType(r)
							c.Logf("b%d=%s of b%d", len(fam), tn, i)
							sn := ustack.UBufMakeSnapshot(b.u, typ)
							if sn == nil {
								c.Fail("snapshot is nil")
							}
							fam = append(fam, member{sn, b.m.clone()})
							h.Count("snapshots", 1)
						} else {
							c.Logf("on b%d:", i)
							anyStep(c, r, b.u, b.m)
							h.Count("operations", 1)
						}
						for j, f := range fam {
							checkState(c, f.u, f.m, fmt.Sprintf("b%d after a step on b%d", j, i))
						}
					}
					if len(fam) > 1 {
						c.Sig(how, hash64(c.hist))
					}
				})
			})
		}
	})
}

// TestC04conc: each buffer of the family is owned by one goroutine (race build).
func TestC04conc(t *testing.T) {
	Plain(t, "C04conc", func(h *H) {
		n := h.N(2500, 30000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				r := c.R
				capacity := 4 + r.Intn(60)
				if r.Intn(6) == 0 {
					capacity = 512 + r.Intn(4000) // long copies widen the window
				}
				reserved := r.Intn(capacity/2 + 1)
				u := ustack.UBufAllocWithHeadReserved(capacity, reserved)
				m := newMbuf(capacity, reserved)
				fill := randBytes(r, 1+r.Intn(m.tail))
				u.Write(fill)
				m.data = append(m.data, fill...)
				m.tail -= len(fill)
				fam := []member{{u, m}}
				width := 2 + r.Intn(5)
				for len(fam) < width {
					b := fam[r.Intn(len(fam))]
					typ, tn := snapType(r)
					c.Logf("b%d=%s", len(fam), tn)
					fam = append(fam, member{ustack.UBufMakeSnapshot(b.u, typ), b.m.clone()})
				}
				for j, f := range fam {
					checkState(c, f.u, f.m, fmt.Sprintf("b%d fresh", j))
				}
				var wg sync.WaitGroup
				start := make(chan struct{})
				var own func(u *ustack.UBuf, m *mbuf, r *rand.Rand, depth int)
				var order Bag[int]
				own = func(u *ustack.UBuf, m *mbuf, r *rand.Rand, depth int) {
					defer wg.Done()
					c := c.Sub()
					snaps, ops := 0, 0
					defer func() { h.Count("snapshots", int64(snaps)); h.Count("operations", int64(ops)) }()
					<-start
					steps := 4 + r.Intn(10)
					for s := 0; s < steps; s++ {
						if depth < 2 && r.Intn(6) == 0 {
							typ, _ := snapType(r)
							sn := ustack.UBufMakeSnapshot(u, typ)
							wg.Add(1)
							go own(sn, m.clone(), rand.New(rand.NewSource(r.Int63())), depth+1)
							snaps++
						}
						anyStep(c, r, u, m)
						checkState(c, u, m, "own buffer")
						ops++
					}
					order.Add(len(m.data))
				}
				for _, f := range fam {
					wg.Add(1)
					go own(f.u, f.m, rand.New(rand.NewSource(r.Int63())), 0)
				}
				close(start)
				wg.Wait()
				c.Sig(capacity, reserved, width, order.All())
			})
		}
	})
}
