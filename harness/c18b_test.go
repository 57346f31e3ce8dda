package harness

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"testing"
	"time"

	"ustack"
)

// TestC18cut removes endpoints at the very moment their last messages are taken and
// queues more straight after: those must stay where they are.
func TestC18cut(t *testing.T) {
	Plain(t, "C18cut", func(h *H) {
		for i := 0; i < h.N(20, 200); i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				us := ustack.NewUStack()
				var seen, late, none int64
				bot := NewProbe("bot")
				bot.OnUp = func(ctx ustack.Context) bool {
					if m, ok := ctx.GetMessage().(int); ok && m == 1 {
						atomic.AddInt64(&late, 1)
					} else {
						atomic.AddInt64(&seen, 1)
					}
					return false
				}
				us.AppendDataProcessor(bot)
				us.Run()
				cycles := 4000
				total := int64(0)
				var eps []ustack.EndPoint
				for k := 0; k < cycles; k++ {
					ep := ustack.NewEndPoint("e", 1)
					eps = append(eps, ep)
					us.AddEndPoint(ep)
					first := atomic.LoadInt64(&seen)
					send(ep, nil, 0)
					for atomic.LoadInt64(&seen) == first {
						runtime.Gosched()
					}
					n := c.R.Intn(6)
					before := atomic.LoadInt64(&seen)
					for x := 0; x < n; x++ {
						send(ep, nil, 0)
					}
					total += int64(n + 1)
					for x := 0; x < 20000 && atomic.LoadInt64(&seen) < before+int64(n)-1; x++ {
					}
					for x := c.R.Intn(40); x > 0; x-- {
						atomic.LoadInt64(&none)
					}
					us.DeleteEndPoint(ep)
					send(ep, nil, 1)
					send(ep, nil, 1)
					c.Tick()
				}
				time.Sleep(5 * time.Millisecond)
				left := int64(0)
				for k, ep := range eps {
					marks := 0
					for len(ep.GetTxChannel()) > 0 {
						if m, _ := (<-ep.GetTxChannel()).GetData().(int); m == 1 {
							marks++
						} else {
							left++
						}
					}
					if marks != 2 {
						c.Fail("cycle %d: %d of 2 messages queued after the endpoint was removed were taken to be sent", k, 2-marks)
					}
				}
				queued := total - left
				for x := 0; x < 3000 && atomic.LoadInt64(&seen) < queued; x++ {
					time.Sleep(10 * time.Millisecond)
				}
				if n := atomic.LoadInt64(&late); n != 0 {
					c.Fail("%d messages queued after the endpoint was removed were sent", n)
				}
				if n := atomic.LoadInt64(&seen); n != queued {
					c.Fail("%d messages were taken, %d were sent", queued, n)
				}
				h.Count("removals", int64(cycles))
				h.Count("messages", queued)
				c.Sig(queued)
				c.Logf("%d removals, %d messages", cycles, queued)
			})
		}
	})
}
