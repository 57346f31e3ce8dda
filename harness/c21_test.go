package harness

import (
	"fmt"
	"math/rand"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"ustack"
)

type c21msg struct {
	id, producer int
	gen          int64 // listener in force when it was queued
}

type c21handled struct {
	epd ustack.EndPointData
	gen int64
}

// c21box observes one endpoint. handled is deliberately not protected: listeners
// are called one at a time, so the race detector must see them as ordered.
type c21box struct {
	ep      ustack.EndPoint
	inside  int32
	handled []c21handled
	bad     Bag[string]
	gens    int64
	delay   func()
	react   func()
	cleared atomic.Bool // while idle or while a message was being handled
}

func (b *c21box) listener(gen int64) func(ustack.EndPoint, ustack.EndPointData) {
	return func(ep ustack.EndPoint, d ustack.EndPointData) {
		if n := atomic.AddInt32(&b.inside, 1); n != 1 {
			b.bad.Add("two listener calls of one endpoint overlap")
		}
		if ep != b.ep {
			b.bad.Add("the listener was called with another endpoint")
		}
		if b.cleared.Load() {
			b.bad.Add("a listener cleared while idle or handling a message took another one")
		}
		b.handled = append(b.handled, c21handled{d, gen})
		if b.delay != nil {
			b.delay()
		}
		if b.react != nil {
			b.react()
		}
		atomic.AddInt32(&b.inside, -1)
	}
}

func (b *c21box) check(c *C) {
	for _, s := range b.bad.All() {
		c.Fail("%s", s)
	}
}

func TestC21(t *testing.T) {
	Bubble(t, "C21", func(h *H) {
		for i := 0; i < h.N(700, 12000); i++ {
			h.Case(fmt.Sprintf("seq-%d", i), func(c *C) { c21seq(h, c) })
		}
	})
}

// c21seq: one goroutine acts, checked at every quiescent point.
func c21seq(h *H, c *C) {
	r := c.R
	b := &c21box{ep: ustack.NewEndPoint("e", r.Intn(3))}
	rr := rand.New(rand.NewSource(r.Int63()))
	slow := r.Intn(3)
	if slow == 1 {
		b.delay = func() { time.Sleep(time.Duration(rr.Intn(5)) * time.Millisecond) }
	}
	var cur int64 // generation in force as far as the actor knows
	set := func(on bool) {
		if !on {
			b.ep.SetDataListener(nil)
			return
		}
		g := atomic.AddInt64(&b.gens, 1)
		b.cleared.Store(false)
		if got := b.ep.SetDataListener(b.listener(g)); got != b.ep {
			b.bad.Add("SetDataListener returned another object")
		}
	}
	reactive := r.Intn(3) == 0
	active := false // only meaningful without reactions
	last := atomic.Int32{}
	if reactive {
		b.react = func() {
			if rr.Intn(4) == 0 {
				on := rr.Intn(3) > 0
				if on {
					last.Store(1)
				} else {
					last.Store(0)
				}
				set(on)
				if !on {
					b.cleared.Store(true)
				}
			}
		}
	}
	var sent []ustack.EndPointData
	info := map[ustack.EndPointData]c21msg{}
	taken := map[ustack.EndPointData]bool{}
	var order []ustack.EndPointData // handled or taken, in the order observed
	seen := 0
	quiet := func() {
		Settle()
		if slow == 1 {
			time.Sleep(10 * time.Second)
			Settle()
		}
		b.check(c)
		for ; seen < len(b.handled); seen++ {
			x := b.handled[seen]
			if _, ok := info[x.epd]; !ok {
				c.Fail("the listener got data that was never queued")
			}
			if taken[x.epd] {
				c.Fail("message %d was handled twice", info[x.epd].id)
			}
			taken[x.epd] = true
			if x.gen < info[x.epd].gen {
				c.Fail("message %d was handled by listener %d, but listener %d was set before it was queued", info[x.epd].id, x.gen, info[x.epd].gen)
			}
			order = append(order, x.epd)
		}
		for k, d := range order {
			if d != sent[k] {
				c.Fail("message %d was handled in place of message %d", info[d].id, info[sent[k]].id)
			}
		}
		on := active
		if reactive {
			on = last.Load() == 1
		}
		left := len(b.ep.GetRxChannel())
		if on && left != 0 {
			c.Fail("a listener is set and %d messages stay in the channel", left)
		}
		if len(order)+left != len(sent) {
			c.Fail("%d messages queued, %d handled, %d in the channel", len(sent), len(order), left)
		}
		h.Count("quiescent_points", 1)
	}
	steps := 8 + r.Intn(30)
	var trail []byte
	for k := 0; k < steps; k++ {
		switch op := r.Intn(10); {
		case op < 4:
			n := 1 + r.Intn(6)
			if r.Intn(15) == 0 {
				n = 400
			}
			for ; n > 0 && len(b.ep.GetRxChannel()) < 500; n-- {
				d := ustack.NewEndPointData().SetData(len(sent))
				info[d] = c21msg{id: len(sent), gen: cur}
				sent = append(sent, d)
				b.ep.GetRxChannel() <- d
			}
			trail = append(trail, 'm')
		case op < 6:
			if reactive {
				quiet() // orders this call with those of the reactions
			}
			active = true
			last.Store(1)
			set(true)
			if !reactive {
				cur = atomic.LoadInt64(&b.gens)
			}
			trail = append(trail, 's')
		case op < 7:
			if reactive {
				quiet()
			}
			active = false
			last.Store(0)
			still := r.Intn(2) == 0
			if still {
				Settle()
			}
			set(false)
			if still {
				b.cleared.Store(true)
			}
			trail = append(trail, 'c')
		case op < 9:
			quiet()
			trail = append(trail, '.')
			if !active && !reactive && r.Intn(2) == 0 {
				// the application reads by itself
				for n := r.Intn(5); n > 0 && len(b.ep.GetRxChannel()) > 0; n-- {
					d := <-b.ep.GetRxChannel()
					if taken[d] {
						c.Fail("message %d was handled and is in the channel", info[d].id)
					}
					taken[d] = true
					order = append(order, d)
					trail = append(trail, 'r')
				}
				quiet()
			}
		default:
			if r.Intn(2) == 0 {
				time.Sleep(time.Duration(r.Intn(8)) * time.Millisecond)
			}
			trail = append(trail, 'z')
		}
	}
	quiet()
	// the rest is handled by a last listener
	b.react = nil
	active = true
	last.Store(1)
	set(true)
	Settle()
	time.Sleep(10 * time.Second)
	quiet()
	if len(order) != len(sent) {
		c.Fail("%d of %d messages were handled", len(order), len(sent))
	}
	b.ep.SetDataListener(nil)
	Settle()
	// afterwards everything stays in the channel
	d := ustack.NewEndPointData().SetData("after")
	b.ep.GetRxChannel() <- d
	Settle()
	if len(b.ep.GetRxChannel()) != 1 || len(b.handled) != seen {
		c.Fail("a message that came after the listener was cleared is not in the channel")
	}
	h.Count("messages", int64(len(sent)))
	h.Count("listeners", b.gens)
	c.Sig(string(trail), slow, len(sent))
	c.Logf("%s (m: messages, s: set, c: clear, .: quiescent, r: read) slow=%d messages=%d", trail, slow, len(sent))
}

func TestC21conc(t *testing.T) {
	Bubble(t, "C21conc", func(h *H) {
		for i := 0; i < h.N(1, 8); i++ {
			h.Case(fmt.Sprintf("volume-%d", i), func(c *C) { c21volume(h, c) })
		}
		for i := 0; i < h.N(150, 2500); i++ {
			h.Case(fmt.Sprintf("conc-%d", i), func(c *C) { c21conc(h, c) })
		}
	})
}

// c21conc: producers and setters run freely.
func c21conc(h *H, c *C) {
	r := c.R
	b := &c21box{ep: ustack.NewEndPoint("e", 0)}
	rr := rand.New(rand.NewSource(r.Int63()))
	if r.Intn(2) == 0 {
		n := 1 + r.Intn(20)
		b.delay = func() { spin(rr, n) }
	}
	set := func(on bool) {
		if !on {
			b.ep.SetDataListener(nil)
			return
		}
		b.ep.SetDataListener(b.listener(atomic.AddInt64(&b.gens, 1)))
	}
	if r.Intn(2) == 0 {
		b.react = func() {
			switch rr.Intn(20) {
			case 0, 1:
				set(true)
			case 2:
				set(false)
			case 3:
				set(false)
				set(true)
			}
		}
	}
	producers := 1 + r.Intn(4)
	per := 20 + r.Intn(150)
	if r.Intn(5) == 0 {
		per = 700
	}
	total := int64(producers * per)
	var pushed int64
	var wg, sg sync.WaitGroup
	var quit atomic.Bool
	if r.Intn(2) == 0 {
		set(true)
	}
	for k := 0; k < 1+r.Intn(2); k++ {
		sr := rand.New(rand.NewSource(r.Int63()))
		gap := 1 + r.Intn(60)
		sg.Add(1)
		go func() {
			defer sg.Done()
			for n := 0; !quit.Load(); n++ {
				set(sr.Intn(3) > 0)
				spin(sr, gap)
				if n > 20000 {
					time.Sleep(time.Millisecond)
				}
			}
			set(true)
		}()
	}
	sent := make([][]ustack.EndPointData, producers)
	info := make([]map[ustack.EndPointData]int, producers)
	for p := 0; p < producers; p++ {
		pr := rand.New(rand.NewSource(r.Int63()))
		gap := r.Intn(20)
		wg.Add(1)
		go func() {
			defer wg.Done()
			info[p] = map[ustack.EndPointData]int{}
			for k := 0; k < per; k++ {
				d := ustack.NewEndPointData().SetData(k)
				sent[p] = append(sent[p], d)
				info[p][d] = k
				b.ep.GetRxChannel() <- d
				atomic.AddInt64(&pushed, 1)
				spin(pr, gap)
			}
		}()
	}
	wg.Wait()
	quit.Store(true)
	sg.Wait()
	// a reaction may have cleared it again: set it until nothing is left
	for k := 0; ; k++ {
		Settle()
		if len(b.ep.GetRxChannel()) == 0 {
			break
		}
		if k > int(total)+10 {
			c.Fail("a listener is set again and again and %d messages stay in the channel", len(b.ep.GetRxChannel()))
		}
		set(true)
	}
	b.check(c)
	next := make([]int, producers)
	used := map[int64]bool{}
	for _, x := range b.handled {
		used[x.gen] = true
		found := false
		for p := range info {
			k, ok := info[p][x.epd]
			if !ok {
				continue
			}
			found = true
			if k < next[p] {
				c.Fail("message %d of producer %d was handled twice or late", k, p)
			}
			if k > next[p] {
				c.Fail("message %d of producer %d was handled before message %d", k, p, next[p])
			}
			next[p]++
		}
		if !found {
			c.Fail("the listener got data that was never queued")
		}
	}
	for p := range next {
		if next[p] != per {
			c.Fail("%d of %d messages of producer %d were handled", next[p], per, p)
		}
	}
	set(false)
	Settle()
	h.Count("messages", total)
	h.Count("listeners_set", b.gens)
	h.Count("listeners_that_handled", int64(len(used)))
	c.Sig(producers, per, len(used), b.gens)
	c.Logf("%d producers x %d messages, %d listeners set, %d of them handled something", producers, per, b.gens, len(used))
}

// c21volume: more messages than a small counter can tell apart, one listener.
func c21volume(h *H, c *C) {
	ep := ustack.NewEndPoint("e", 0)
	next := 0
	bad := ""
	ep.SetDataListener(func(_ ustack.EndPoint, d ustack.EndPointData) {
		if k := d.GetData().(int); k != next && bad == "" {
			bad = fmt.Sprintf("message %d was handled, the next one is %d", k, next)
		}
		next++
	})
	n := 66000 + c.R.Intn(3000)
	for k := 0; k < n; k++ {
		ep.GetRxChannel() <- ustack.NewEndPointData().SetData(k)
	}
	Settle()
	if bad != "" || next != n {
		c.Fail("%d of %d messages were handled. %s", next, n, bad)
	}
	ep.SetDataListener(nil)
	Settle()
	h.Count("messages", int64(n))
	c.Sig("volume", n)
}
