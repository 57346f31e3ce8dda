package harness

import (
	"fmt"
	"math/rand"
	"runtime"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"ustack"
)

type refItem struct {
	id    int
	maybe bool // was under way to a side that ended: may be lost
}

type refOp struct {
	item *refItem
	got  interface{}
	err  error
	done chan struct{}
}

func (o *refOp) ended() bool {
	select {
	case <-o.done:
		return true
	default:
		return false
	}
}

// refPair is two reference transports on one address with a model of what is under way.
type refPair struct {
	c       *C
	name    string
	tr      [2]ustack.Transport
	conn    [2]ustack.TransportConnection
	running [2]bool
	started [2]bool // ran before since the address was fresh
	open    [2]bool
	get     [2]*refOp
	set     [2]*refOp
	next    [2]*refOp
	q       [2][]*refItem // accepted, towards side i
	n       int
	moved   int
	dropAll bool
}

func (p *refPair) fail(f string, a ...interface{}) { p.c.Fail(p.name+": "+f, a...) }

// settle lets everything run and compares with the model.
func (p *refPair) settle() {
	for i := 0; i < 2; i++ {
		o := p.set[i]
		if o == nil {
			continue
		}
		j := 1 - i
		if !o.ended() {
			if !p.open[i] {
				p.fail("side %d: a send is still blocked although the connection was closed", i)
			}
			continue
		}
		p.set[i] = nil
		if o.err != nil {
			if p.open[i] {
				p.fail("side %d: send failed on an open connection: %v", i, o.err)
			}
			continue
		}
		o.item.maybe = p.running[j] && !p.open[j] || !p.running[j] && p.started[j]
		p.q[j] = append(p.q[j], o.item)
	}
	for j := 0; j < 2; j++ {
		o := p.get[j]
		if o == nil {
			continue
		}
		if !o.ended() {
			if !p.open[j] {
				p.fail("side %d: a receive is still blocked although the connection was closed", j)
			}
			for _, x := range p.q[j] {
				if !x.maybe {
					p.fail("side %d: receives nothing although message %d was accepted", j, x.id)
				}
			}
			if p.set[1-j] != nil {
				p.fail("side %d: receive and send of the other side block each other", j)
			}
			continue
		}
		p.get[j] = nil
		if o.err != nil {
			if p.open[j] {
				p.fail("side %d: receive failed on an open connection: %v", j, o.err)
			}
			continue
		}
		if !p.open[j] {
			p.fail("side %d: a receive on a closed connection delivered %v", j, o.got)
		}
		x, ok := o.got.(*refItem)
		if !ok {
			p.fail("side %d: received %T instead of the object sent", j, o.got)
		}
		for len(p.q[j]) > 0 && p.q[j][0] != x && p.q[j][0].maybe {
			p.q[j] = p.q[j][1:]
		}
		if len(p.q[j]) == 0 || p.q[j][0] != x {
			p.fail("side %d: received message %d, not the next one under way %v", j, x.id, ids(p.q[j]))
		}
		p.q[j] = p.q[j][1:]
		p.moved++
	}
	for i := 0; i < 2; i++ {
		if o := p.next[i]; o != nil {
			if o.ended() {
				p.next[i] = nil
				if p.running[i] {
					p.fail("side %d: NextConnection returned %v a second time", i, o.got)
				}
				if o.got != nil {
					p.fail("side %d: NextConnection returned a connection after the stop", i)
				}
			} else if !p.running[i] {
				p.fail("side %d: NextConnection still waits after the stop", i)
			}
		}
		if p.conn[i] != nil && p.conn[i].Closed() == p.open[i] {
			p.fail("side %d: Closed() is %v", i, p.conn[i].Closed())
		}
	}
}

func ids(l []*refItem) []int {
	var r []int
	for _, x := range l {
		r = append(r, x.id)
	}
	return r
}

func (p *refPair) doGet(i int) {
	o := &refOp{done: make(chan struct{})}
	p.get[i] = o
	cn := p.conn[i]
	go func() { o.got, o.err = cn.GetReference(); close(o.done) }()
}

func (p *refPair) doSet(i int) {
	p.n++
	o := &refOp{item: &refItem{id: p.n}, done: make(chan struct{})}
	p.set[i] = o
	cn := p.conn[i]
	go func() { o.err = cn.SetReference(o.item); close(o.done) }()
}

func (p *refPair) doNext(i int) {
	o := &refOp{done: make(chan struct{})}
	p.next[i] = o
	tr := p.tr[i]
	go func() {
		if x := tr.NextConnection(); x != nil {
			o.got = x
		}
		close(o.done)
	}()
}

// closedSide: what was under way to it need not arrive
func (p *refPair) closedSide(i int) {
	p.open[i] = false
	for _, x := range p.q[i] {
		x.maybe = true
	}
}

func (p *refPair) step(r *rand.Rand) {
	i := r.Intn(2)
	k := r.Intn(100)
	switch {
	case !p.running[i]:
		if k < 60 {
			p.c.Logf("%s run %d", p.name, i)
			p.tr[i].Run()
			if r.Intn(4) == 0 {
				p.tr[i].Run()
			}
			p.running[i], p.open[i], p.started[i] = true, true, true
			p.conn[i] = p.tr[i].NextConnection()
			if p.conn[i] == nil {
				p.fail("side %d: NextConnection returned none after Run", i)
			}
			if !p.conn[i].UseReference() {
				p.fail("not a reference connection")
			}
		} else if p.conn[i] != nil {
			if k < 80 && p.get[i] == nil {
				p.c.Logf("%s get(stopped) %d", p.name, i)
				p.doGet(i)
			} else if p.set[i] == nil {
				p.c.Logf("%s set(stopped) %d", p.name, i)
				p.doSet(i)
			}
		}
	case k < 40:
		if p.set[i] == nil {
			p.doSet(i)
			p.c.Logf("%s set %d #%d", p.name, i, p.n)
		}
	case k < 80:
		if p.get[i] == nil {
			p.doGet(i)
			p.c.Logf("%s get %d", p.name, i)
		}
	case k < 82:
		// nothing to hand over
		if p.open[i] {
			if err := p.conn[i].SetReference(nil); err == nil {
				p.fail("side %d: sending no object was accepted", i)
			}
		}
	case k < 84:
		if p.next[i] == nil {
			p.doNext(i)
			p.c.Logf("%s next %d", p.name, i)
		}
	case k < 90:
		p.c.Logf("%s close %d", p.name, i)
		p.conn[i].Close()
		if r.Intn(4) == 0 {
			p.conn[i].Close()
		}
		p.closedSide(i)
	default:
		p.c.Logf("%s stop %d", p.name, i)
		p.tr[i].Stop()
		if r.Intn(4) == 0 {
			p.tr[i].Stop()
		}
		p.running[i] = false
		p.closedSide(i)
		if !p.running[0] && !p.running[1] {
			// sends that were accepted are gone with the address
			p.dropAll = true
		}
	}
}

func TestC12direct(t *testing.T) {
	Bubble(t, "C12direct", func(h *H) {
		n := h.N(500, 8000)
		seq := 0
		for i := 0; i < h.N(60, 600); i++ {
			h.Case(fmt.Sprintf("fill-%d", i), func(c *C) { c12fill(c, i) })
		}
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				r := c.R
				var ps []*refPair
				for k := 1 + r.Intn(3); k > 0; k-- {
					seq++
					p := &refPair{c: c, name: fmt.Sprintf("pair%d", k)}
					sizes := []int{0, 1, 2, 5, 512}
					for s := 0; s < 2; s++ {
						p.tr[s] = ustack.NewReferenceTransport("ref").SetAddress(fmt.Sprintf("ref-%d", seq))
						if s != 0 || r.Intn(2) == 0 { // a server by default
							p.tr[s].ForServer(s == 0)
						}
						if r.Intn(3) > 0 {
							p.tr[s].SetOption("MaxQueueSize", sizes[r.Intn(len(sizes))])
						}
					}
					ps = append(ps, p)
				}
				steps := 20 + r.Intn(150)
				for s := 0; s < steps; s++ {
					p := ps[r.Intn(len(ps))]
					p.step(r)
					Settle()
					if r.Intn(20) == 0 { // nothing happens for a long time
						time.Sleep(time.Duration(r.Int63n(int64(24 * time.Hour))))
						Settle()
					}
					p.settleAll()
					for _, o := range ps {
						if o != p {
							o.settleAll()
						}
					}
				}
				// end: everything stops
				for _, p := range ps {
					for s := 0; s < 2; s++ {
						if p.running[s] {
							p.tr[s].Stop()
							p.running[s] = false
							p.closedSide(s)
						}
					}
					p.dropAll = true
				}
				Settle()
				for _, p := range ps {
					p.settleAll()
					h.Count("messages_delivered", int64(p.moved))
					if p.moved > 0 {
						c.Sig(p.n, p.moved, steps)
					}
				}
			})
		}
	})
}

// c12fill fills the queues to the brim, in both directions, before anything is taken out.
func c12fill(c *C, seq int) {
	r := c.R
	size := []int{-1, -1, 511, 512, 513, 1000, 1 + r.Intn(2000)}[r.Intn(7)]
	var tr [2]ustack.Transport
	var cn [2]ustack.TransportConnection
	for s := 0; s < 2; s++ {
		tr[s] = ustack.NewReferenceTransport("r").ForServer(s == 0).SetAddress(fmt.Sprintf("c12fill-%d", seq))
		if size >= 0 {
			tr[s].SetOption("MaxQueueSize", size)
		}
	}
	for _, s := range r.Perm(2) {
		tr[s].Run()
		cn[s] = tr[s].NextConnection()
	}
	var n [2]int
	var sent [2]atomic.Int64
	var closed atomic.Bool
	for s := 0; s < 2; s++ {
		n[s] = r.Intn(2600)
		go func(s int) {
			for k := 0; k < n[s]; k++ {
				if err := cn[s].SetReference(&numbered{s, k}); err != nil {
					if !closed.Load() {
						c.Fail("side %d: message %d was refused on an open connection: %v", s, k, err)
					}
					return
				}
				sent[s].Add(1)
			}
		}(s)
	}
	Settle()
	for s := 0; s < 2; s++ {
		if got := int(sent[s].Load()); size >= 0 && n[s] >= size && got != size {
			c.Fail("side %d: a queue of %d took %d of %d messages", s, size, got, n[s])
		}
	}
	held := [2]int64{sent[0].Load(), sent[1].Load()}
	for _, s := range r.Perm(2) {
		take := n[s]
		if r.Intn(3) == 0 {
			take = r.Intn(n[s] + 1)
		}
		for k := 0; k < take; k++ {
			p, err := cn[1-s].GetReference()
			x, ok := p.(*numbered)
			if err != nil || !ok || *x != (numbered{s, k}) {
				c.Fail("side %d: message %d of %d: got %v, %v", 1-s, k, n[s], p, err)
			}
			if r.Intn(200) == 0 {
				Settle()
			}
		}
		c.H.Count("messages_delivered", int64(take))
	}
	closed.Store(true)
	for s := 0; s < 2; s++ {
		tr[s].Stop()
	}
	Settle()
	c.Sig(size, n[0], n[1], held)
}

func (p *refPair) settleAll() {
	p.settle()
	if p.dropAll {
		p.dropAll = false
		p.q = [2][]*refItem{}
		p.started = [2]bool{}
	}
}

// concurrent senders and receivers on one address, one side ended at a random moment
func TestC12conc(t *testing.T) {
	Plain(t, "C12conc", func(h *H) {
		n := h.N(120, 1500)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) { c12conc(c, i) })
		}
		for i := 0; i < h.N(1, 8); i++ {
			h.Case(fmt.Sprintf("volume-%d", i), func(c *C) { c12volume(c, i) })
		}
		for i := 0; i < h.N(4, 40); i++ {
			h.Case(fmt.Sprintf("many-%d", i), func(c *C) { c12many(c, i) })
		}
		for i := 0; i < h.N(12, 100); i++ {
			h.Case(fmt.Sprintf("start-%d", i), func(c *C) { c12start(c, i) })
		}
	})
}

// c12many: many addresses are in use at once, one side running before the other.
func c12many(c *C, idx int) {
	r := c.R
	n := 10 + r.Intn(200)
	tr := make([][2]ustack.Transport, n)
	cn := make([][2]ustack.TransportConnection, n)
	forms := []string{refForms[r.Intn(len(refForms))]}
	if idx%2 == 0 { // all kinds beside each other
		forms = refForms
	}
	first := make([]int, n)
	for k := range tr {
		addr := fmt.Sprintf(forms[k%len(forms)], 1000*(1000+idx)+k/len(forms))
		first[k] = r.Intn(2)
		for s := 0; s < 2; s++ {
			tr[k][s] = ustack.NewReferenceTransport("r").ForServer(s == 1).SetAddress(addr)
		}
	}
	run := func(k, s int) {
		tr[k][s].Run()
		cn[k][s] = tr[k][s].NextConnection()
	}
	for _, k := range r.Perm(n) {
		run(k, first[k])
	}
	for _, k := range r.Perm(n) {
		run(k, 1-first[k])
	}
	for again := 0; again < 2; again++ {
		// all messages are under way at once
		sent := make([][2]*numbered, n)
		for _, k := range r.Perm(n) {
			for s := 0; s < 2; s++ {
				sent[k][s] = &numbered{k, s}
				if err := cn[k][s].SetReference(sent[k][s]); err != nil {
					c.Fail("%d addresses: a message was refused on an open connection: %v", n, err)
				}
			}
		}
		for _, k := range r.Perm(n) {
			for s := 0; s < 2; s++ {
				got := make(chan interface{}, 1)
				go func() {
					p, err := cn[k][1-s].GetReference()
					if err != nil {
						got <- err
						return
					}
					got <- p
				}()
				select {
				case p := <-got:
					if p != interface{}(sent[k][s]) {
						c.Fail("%d addresses: address %d got %v instead of its message", n, k, p)
					}
				case <-time.After(20 * time.Second):
					c.Fail("%d addresses: a message of address %d did not arrive within 20 s", n, k)
				}
			}
		}
		if again == 0 { // some start anew
			for _, k := range r.Perm(n)[:n/3] {
				tr[k][0].Stop()
				tr[k][1].Stop()
				run(k, first[k])
				run(k, 1-first[k])
			}
		}
		c.Tick()
	}
	for k := range tr {
		tr[k][0].Stop()
		tr[k][1].Stop()
	}
	c.Sig("many", n, forms)
	c.Logf("%d addresses of the forms %q", n, forms)
}

// c12start: both sides of an address are started (and stopped) at the same moment.
func c12start(c *C, idx int) {
	r := c.R
	both := func(f func(s int)) {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for s := 0; s < 2; s++ {
			wg.Add(1)
			go func(s int) {
				defer wg.Done()
				<-gate
				f(s)
			}(s)
		}
		close(gate)
		wg.Wait()
	}
	size := []int{0, 1, 512, 20000, 100000}[r.Intn(5)]
	for k := 0; k < 40; k++ {
		addr := fmt.Sprintf("c12start-%d", idx)
		if r.Intn(2) == 0 {
			addr = fmt.Sprintf("c12start-%d-%d", idx, k)
		}
		var tr [2]ustack.Transport
		for s := 0; s < 2; s++ {
			tr[s] = ustack.NewReferenceTransport("r").ForServer(s == 1).SetAddress(addr).SetOption("MaxQueueSize", size)
		}
		for again := r.Intn(3); again >= 0; again-- {
			var cn [2]ustack.TransportConnection
			both(func(s int) {
				tr[s].Run()
				cn[s] = tr[s].NextConnection()
			})
			for s := 0; s < 2; s++ {
				if cn[s] == nil || cn[s].Closed() {
					c.Fail("both sides started at once: side %d has no open connection", s)
				}
			}
			for s := 0; s < 2; s++ {
				x := &numbered{s, k}
				go cn[s].SetReference(x)
				got := make(chan interface{}, 1)
				go func() {
					p, err := cn[1-s].GetReference()
					if err != nil {
						got <- err
						return
					}
					got <- p
				}()
				select {
				case p := <-got:
					if p != interface{}(x) {
						c.Fail("both sides started at once: side %d got %v instead of the message", 1-s, p)
					}
				case <-time.After(20 * time.Second):
					c.Fail("both sides started at once (queue size %d): the message sent by side %d did not arrive within 20 s", size, s)
				}
			}
			both(func(s int) { tr[s].Stop() })
		}
		c.Tick()
	}
	c.Sig("start", size)
	c.Logf("start: size=%d", size)
}

type numbered struct {
	sender, seq int
}

func c12conc(c *C, idx int) {
	r := c.R
	addr := fmt.Sprintf("c12conc-%d", idx)
	var tr [2]ustack.Transport
	var cn [2]ustack.TransportConnection
	for s := 0; s < 2; s++ {
		tr[s] = ustack.NewReferenceTransport("r").ForServer(s == 1).SetAddress(addr)
		if size := []int{0, 1, 3, 100, -1}[r.Intn(5)]; size >= 0 {
			tr[s].SetOption("MaxQueueSize", size)
		}
		tr[s].Run()
		cn[s] = tr[s].NextConnection()
	}
	senders := 1 + r.Intn(4)
	msgs := 50 + r.Intn(400)
	lazy := time.Duration(0) // receivers start late, the queue fills
	if r.Intn(4) == 0 {
		lazy = time.Duration(r.Intn(5000)) * time.Microsecond
		msgs = 300 + r.Intn(600)
	}
	end := r.Intn(4) // 0: nobody is closed; 1,2: sender side; 3: receiver side
	var wg sync.WaitGroup
	accepted := make([]map[*numbered]bool, 2*senders)
	refused := make([]map[*numbered]bool, 2*senders)
	var got [2]int64
	var sg [2]sync.WaitGroup
	var ending [2]int32
	for side := 0; side < 2; side++ {
		for s := 0; s < senders; s++ {
			k := side*senders + s
			accepted[k], refused[k] = map[*numbered]bool{}, map[*numbered]bool{}
			wg.Add(1)
			sg[side].Add(1)
			go func(side, k int) {
				defer wg.Done()
				defer sg[side].Done()
				for m := 0; m < msgs; m++ {
					x := &numbered{k, m}
					if err := cn[side].SetReference(x); err == nil {
						accepted[k][x] = true
					} else {
						if atomic.LoadInt32(&ending[side]) == 0 {
							c.Fail("side %d: a send was refused on an open connection: %v", side, err)
						}
						refused[k][x] = true
					}
					if m%64 == 0 {
						runtime.Gosched()
					}
				}
			}(side, k)
		}
	}
	// receivers: end when their side is closed
	type rec struct {
		l []*numbered
	}
	recs := [2]*rec{{}, {}}
	var rg sync.WaitGroup
	for side := 0; side < 2; side++ {
		rg.Add(1)
		go func(side int) {
			defer rg.Done()
			time.Sleep(lazy)
			for {
				p, err := cn[side].GetReference()
				if err != nil {
					return
				}
				recs[side].l = append(recs[side].l, p.(*numbered))
				atomic.AddInt64(&got[side], 1)
			}
		}(side)
	}
	endedSide := -1
	byStop := r.Intn(2) == 0
	if end > 0 {
		endedSide = r.Intn(2)
		delay := r.Intn(2000)
		for k := 0; k < delay; k++ {
			runtime.Gosched()
		}
		var eg sync.WaitGroup
		atomic.StoreInt32(&ending[endedSide], 1)
		for k := 0; k < 1+r.Intn(3); k++ {
			eg.Add(1)
			go func() {
				defer eg.Done()
				if byStop {
					tr[endedSide].Stop()
				} else {
					cn[endedSide].Close()
				}
			}()
		}
		eg.Wait()
		if e := cn[endedSide].SetReference(&numbered{}); e == nil {
			c.Fail("a send after the connection was closed succeeded")
		}
		if p, e := cn[endedSide].GetReference(); e == nil {
			c.Fail("a receive after the connection was closed delivered %v", p)
		}
		// senders of the other side may fill the queue and block: close it as soon as its own receive side got everything
	}
	// wait until every open side got everything it must get, then end all
	if endedSide >= 0 {
		// after the close its senders end by themselves: what was accepted is known
		sg[endedSide].Wait()
	} else {
		sg[0].Wait()
		sg[1].Wait()
	}
	for side := 0; side < 2; side++ {
		if side == endedSide {
			continue
		}
		want := 0
		for k := range accepted {
			if k/senders != side {
				want += len(accepted[k])
			}
		}
		for spin := 0; int(atomic.LoadInt64(&got[side])) < want; spin++ {
			time.Sleep(time.Millisecond)
			if spin > 20000 {
				c.Fail("side %d: %d of %d messages accepted from the other side arrived", side, got[side], want)
			}
		}
	}
	for s := 0; s < 2; s++ {
		atomic.StoreInt32(&ending[s], 1)
		cn[s].Close()
	}
	wg.Wait()
	rg.Wait()
	for s := 0; s < 2; s++ {
		tr[s].Stop()
	}
	seen := map[*numbered]bool{}
	for side := 0; side < 2; side++ {
		last := map[int]int{}
		for _, x := range recs[side].l {
			if x.sender/senders == side {
				c.Fail("side %d received its own message", side)
			}
			if seen[x] {
				c.Fail("message %v was delivered twice", *x)
			}
			seen[x] = true
			if refused[x.sender][x] {
				c.Fail("message %v was refused and still delivered", *x)
			}
			if !accepted[x.sender][x] {
				c.Fail("message %v is not one that was sent", *x)
			}
			if l, ok := last[x.sender]; ok && x.seq <= l {
				c.Fail("sender %d: message %d came after %d", x.sender, x.seq, l)
			} else if endedSide != side && x.seq != map[bool]int{true: l + 1, false: 0}[ok] {
				c.Fail("sender %d: message %d came after %d (%v): one was lost", x.sender, x.seq, l, ok)
			}
			last[x.sender] = x.seq
		}
	}
	// what an ended side had accepted must have reached the open one
	for k := range accepted {
		side := k / senders
		if endedSide < 0 || endedSide == side {
			for x := range accepted[k] {
				if !seen[x] {
					c.Fail("side %d: message %v was accepted before the close but never arrived at the open side", side, *x)
				}
			}
		}
	}
	c.H.Count("messages_delivered", int64(len(seen)))
	c.Sig(senders, msgs, end, byStop, len(seen))
	c.Logf("senders=%d msgs=%d endedSide=%d byStop=%v delivered=%d", senders, msgs, endedSide, byStop, len(seen))
}

// c12volume: more messages than a small counter can tell apart, one connection.
func c12volume(c *C, idx int) {
	r := c.R
	var tr [2]ustack.Transport
	var cn [2]ustack.TransportConnection
	for s := 0; s < 2; s++ {
		tr[s] = ustack.NewReferenceTransport("r").ForServer(s == 0).SetAddress(fmt.Sprintf("c12vol-%d", idx))
		tr[s].Run()
		cn[s] = tr[s].NextConnection()
	}
	total := 0
	for total < 140000 {
		from := r.Intn(4) / 3
		n := 1 + r.Intn(512)
		l := make([]*numbered, n)
		for k := range l {
			l[k] = &numbered{from, total + k}
			if err := cn[from].SetReference(l[k]); err != nil {
				c.Fail("message %d was refused on an open connection: %v", total+k, err)
			}
		}
		end := make(chan struct{})
		bad := ""
		go func() {
			defer close(end)
			for k := range l {
				p, err := cn[1-from].GetReference()
				if err != nil || p != interface{}(l[k]) {
					bad = fmt.Sprintf("message %d came out as %v (%v)", total+k, p, err)
					return
				}
			}
		}()
		select {
		case <-end:
		case <-time.After(30 * time.Second):
			c.Fail("of messages %d to %d not all arrived", total, total+n-1)
		}
		if bad != "" {
			c.Fail("%s", bad)
		}
		total += n
		c.Tick()
	}
	tr[0].Stop()
	tr[1].Stop()
	c.Sig("volume", total)
}
