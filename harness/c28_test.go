package harness

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"sync"
	"syscall"
	"testing"
	"time"

	"ustack"
)

func TestC28(t *testing.T) {
	Plain(t, "C28", func(h *H) {
		// idle connections, used again when everything else is done
		since := time.Now()
		idle := c28idle(&C{H: h, Name: "idle"})
		for i := 0; i < h.N(4, 24); i++ {
			h.Case(fmt.Sprintf("many-%d", i), func(c *C) { c28many(h, c, []string{"tcp", "unix"}[i%2]) })
			h.Case(fmt.Sprintf("churn-%d", i), func(c *C) { c28churn(h, c, []string{"tcp", "unix"}[i%2]) })
		}
		for i := 0; i < h.N(30, 300); i++ {
			h.Case(fmt.Sprintf("burst-%d", i), func(c *C) { c28burst(h, c, []string{"tcp", "unix"}[i%2]) })
		}
		for i := 0; i < h.N(6, 40); i++ {
			h.Case(fmt.Sprintf("leftover-%d", i), func(c *C) { c28leftover(h, c) })
		}
		for i := 0; i < h.N(16, 120); i++ {
			h.Case(fmt.Sprintf("descriptors-%d", i), func(c *C) { c28fds(h, c, []string{"tcp", "unix"}[i%2], i < 2) })
		}
		h.Case("idle", func(c *C) {
			for until := since.Add(time.Duration(h.N(15, 150)) * time.Second); time.Now().Before(until); c.Tick() {
				time.Sleep(100 * time.Millisecond)
			}
			idle(c)
			h.Max("idle_seconds", int64(time.Since(since).Seconds()))
			c.Sig("idle")
		})
	})
}

// serveOne reads a client's number from a connection and returns it complemented.
func serveOne(cn ustack.TransportConnection, seen func(id uint32)) (uint32, error) {
	b := make([]byte, 4)
	for n := 0; n < 4; {
		k, err := cn.Read(b[n:])
		if err != nil || k == 0 {
			return 0, fmt.Errorf("read %d bytes: %v", n, err)
		}
		n += k
	}
	id := binary.BigEndian.Uint32(b)
	if seen != nil {
		seen(id)
	}
	if _, err := cn.Write(be32(^id)); err != nil {
		return 0, err
	}
	return id, nil
}

func c28burst(h *H, c *C, kind string) {
	r := c.R
	addr := otherAddress(c.R, kind, true)
	tr := newTransport(kind, addr, true).Run()
	// the address is there soon
	dialRaw(c, kind, addr).Close()
	n := 20 + r.Intn(150)
	late := time.Duration(0)
	if r.Intn(2) == 0 {
		late = time.Duration(r.Intn(60)) * time.Millisecond
	}
	consumers := 1 + r.Intn(3)
	pause := r.Intn(2) * r.Intn(400) // microseconds between two connections
	leavers := r.Intn(2) * r.Intn(20)
	c.Logf("%s: %d clients and %d that leave at once, %d consumers after %v, pause %dus", kind, n, leavers, consumers, late, pause)
	var dg sync.WaitGroup
	answers := make([]chan error, n)
	var raws Bag[net.Conn]
	seed := r.Int63()
	dialers := 1 + r.Intn(8)
	for d := 0; d < dialers; d++ {
		dg.Add(1)
		go func() {
			defer dg.Done()
			rr := rand.New(rand.NewSource(seed + int64(d)))
			for id := d; id < n; id += dialers {
				for k := 0; k < leavers/dialers/10+1 && leavers > 0; k++ {
					if x, err := net.DialTimeout(kind, addr, 30*time.Second); err == nil {
						x.Close()
					}
				}
				raw, err := net.DialTimeout(kind, addr, 30*time.Second)
				for k := 0; errors.Is(err, syscall.EAGAIN) && k < 3000; k++ { // the system's own backlog is full
					time.Sleep(10 * time.Millisecond)
					raw, err = net.DialTimeout(kind, addr, 30*time.Second)
				}
				ch := make(chan error, 1)
				answers[id] = ch
				if err != nil {
					ch <- fmt.Errorf("dial: %v", err)
					continue
				}
				raws.Add(raw)
				go func() {
					b := make([]byte, 4)
					raw.SetDeadline(time.Now().Add(60 * time.Second))
					raw.Write(be32(uint32(id)))
					_, err := io.ReadFull(raw, b)
					if err == nil && binary.BigEndian.Uint32(b) != ^uint32(id) {
						err = fmt.Errorf("answer %x", b)
					}
					ch <- err
				}()
				spin(rr, 20)
			}
		}()
	}
	time.Sleep(late)
	var mu sync.Mutex
	served := map[uint32]int{}
	objs := map[ustack.TransportConnection]int{}
	var cg, sg sync.WaitGroup
	for k := 0; k < consumers; k++ {
		cg.Add(1)
		go func() {
			defer cg.Done()
			for {
				cn := tr.NextConnection()
				if cn == nil {
					return
				}
				mu.Lock()
				objs[cn]++
				mu.Unlock()
				sg.Add(1)
				go func() {
					defer sg.Done()
					serveOne(cn, func(id uint32) {
						mu.Lock()
						served[id]++
						mu.Unlock()
					})
				}()
				if pause > 0 {
					time.Sleep(time.Duration(pause) * time.Microsecond)
				}
			}
		}()
	}
	dg.Wait()
	for id, ch := range answers {
		if err := <-ch; err != nil {
			c.Fail("%s: client %d of %d was not served: %v", kind, id, n, err)
		}
		c.Tick()
	}
	mu.Lock()
	for cn, k := range objs {
		if k != 1 {
			c.Fail("%s: a connection was handed over %d times", kind, k)
		}
		_ = cn
	}
	for id := uint32(0); id < uint32(n); id++ {
		if served[id] != 1 {
			c.Fail("%s: client %d was served by %d connections", kind, id, served[id])
		}
	}
	mu.Unlock()
	tr.Stop()
	cg.Wait()
	sg.Wait()
	for _, raw := range raws.All() {
		raw.Close()
	}
	h.Count("clients", int64(n))
	c.Sig("burst", kind, n, consumers, dialers)
}

// c28fds: the process has no descriptor left when clients connect.
func c28fds(h *H, c *C, kind string, long bool) {
	r := c.R
	addr := otherAddress(c.R, kind, true)
	tr := newTransport(kind, addr, true).Run()
	defer tr.Stop()
	id := uint32(0)
	ping := func(p pair28, what string) { id++; ping28(c, kind, p, id, what) }
	next := func(what string) ustack.TransportConnection { return next28(c, kind, tr, what) }
	raw := dialRaw(c, kind, addr)
	first := pair28{raw, next("first client")}
	ping(first, "first client")

	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
		c.Abort("getrlimit: %v", err)
	}
	rounds := 1 + r.Intn(3)
	for round := 0; round < rounds; round++ {
		// a limit just above what is in use
		top, err := os.Open("/dev/null")
		if err != nil {
			c.Abort("open: %v", err)
		}
		low := lim
		low.Cur = uint64(top.Fd()) + 24
		top.Close()
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
			c.Abort("setrlimit: %v", err)
		}
		var fill []int
		for len(fill) < 100000 {
			fd, err := syscall.Open("/dev/null", syscall.O_RDONLY|syscall.O_CLOEXEC, 0)
			if err != nil {
				break
			}
			fill = append(fill, fd)
		}
		free := func(n int) {
			for ; n > 0 && len(fill) > 0; n-- {
				syscall.Close(fill[len(fill)-1])
				fill = fill[:len(fill)-1]
			}
		}
		var late []net.Conn
		want := 1 + r.Intn(3)
		for k := 0; k < 30 && len(late) < want; k++ {
			free(1) // for the client's end; none is left for the server's
			if x, err := net.DialTimeout(kind, addr, 5*time.Second); err == nil {
				late = append(late, x)
			}
		}
		if long && round == 0 {
			// not so short
			for k := 0; k < 26; k++ {
				time.Sleep(100 * time.Millisecond)
				c.Tick()
			}
		}
		time.Sleep(time.Duration(2+r.Intn(40)) * time.Millisecond)
		closedThen := first.cn.Closed()
		free(len(fill))
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			c.Abort("setrlimit: %v", err)
		}
		if closedThen {
			c.Fail("%s: a failure to accept closed another connection", kind)
		}
		ping(first, "a client connected before descriptors ran out")
		byID := map[uint32]ustack.TransportConnection{}
		base := id
		for k, x := range late {
			x.SetDeadline(time.Now().Add(60 * time.Second))
			x.Write(be32(base + 1 + uint32(k)))
		}
		for range late {
			cn := next("a client that connected when descriptors had run out")
			got, err := serveOne(cn, nil)
			if err != nil || byID[got] != nil {
				c.Fail("%s: a client that connected when descriptors had run out: client %d, %v", kind, got, err)
			}
			byID[got] = cn
		}
		id += uint32(len(late))
		for k, x := range late {
			b := make([]byte, 4)
			if _, err := io.ReadFull(x, b); err != nil || binary.BigEndian.Uint32(b) != ^(base+1+uint32(k)) {
				c.Fail("%s: answer %x, %v", kind, b, err)
			}
			x.Close()
		}
		h.Count("late_clients", int64(len(late)))
		c.Logf("%s round %d: %d clients without descriptors", kind, round, len(late))
		c.Tick()
	}
	// and new ones
	p := pair28{dialRaw(c, kind, addr), next("a new client")}
	ping(p, "a new client")
	p.raw.Close()
	first.raw.Close()
	h.Count("exhaustions", int64(rounds))
	c.Sig("fds", kind, rounds, hash64(c.hist))
}

type pair28 struct {
	raw net.Conn
	cn  ustack.TransportConnection
}

// ping28 exchanges a number over a connection.
func ping28(c *C, kind string, p pair28, id uint32, what string) {
	p.raw.SetDeadline(time.Now().Add(30 * time.Second))
	if _, err := p.raw.Write(be32(id)); err != nil {
		c.Fail("%s: %s: %v", kind, what, err)
	}
	got, err := serveOne(p.cn, nil)
	if err != nil || got != id {
		c.Fail("%s: %s: got %d for %d, %v", kind, what, got, id, err)
	}
	b := make([]byte, 4)
	if _, err := io.ReadFull(p.raw, b); err != nil || binary.BigEndian.Uint32(b) != ^id {
		c.Fail("%s: %s: answer %x, %v", kind, what, b, err)
	}
}

func next28(c *C, kind string, tr ustack.Transport, what string) ustack.TransportConnection {
	ch := make(chan ustack.TransportConnection, 1)
	go func() { ch <- tr.NextConnection() }()
	select {
	case cn := <-ch:
		if cn == nil {
			c.Fail("%s: %s: the transport stopped by itself", kind, what)
		}
		return cn
	case <-time.After(60 * time.Second):
		c.Fail("%s: %s: no connection within 60 s", kind, what)
	}
	return nil
}

// c28idle opens connections that stay silent until the returned function is called.
func c28idle(c *C) func(c *C) {
	type one struct {
		kind string
		tr   ustack.Transport
		p    pair28
		got  chan error
	}
	var all []one
	for _, kind := range []string{"tcp", "unix"} {
		addr := newAddress(kind)
		tr := newTransport(kind, addr, true).Run()
		raw := dialRaw(c, kind, addr)
		p := pair28{raw, next28(c, kind, tr, "idle client")}
		ping28(c, kind, p, 1, "idle client")
		got := make(chan error, 1)
		go func() { // one reader waits all the time
			id, err := serveOne(p.cn, nil)
			if err == nil && id != 2 {
				err = fmt.Errorf("got %d", id)
			}
			got <- err
		}()
		all = append(all, one{kind, tr, p, got})
	}
	return func(c *C) {
		for _, o := range all {
			select {
			case err := <-o.got:
				c.Fail("%s: reading from an idle connection ended: %v", o.kind, err)
			default:
			}
			o.p.raw.SetDeadline(time.Now().Add(30 * time.Second))
			o.p.raw.Write(be32(2))
			if err := <-o.got; err != nil {
				c.Fail("%s: a connection that was idle: %v", o.kind, err)
			}
			b := make([]byte, 4)
			if _, err := io.ReadFull(o.p.raw, b); err != nil {
				c.Fail("%s: a connection that was idle: no answer: %v", o.kind, err)
			}
			o.tr.Stop()
			o.p.raw.Close()
		}
	}
}

// c28many: many clients stay connected together.
func c28many(h *H, c *C, kind string) {
	r := c.R
	addr := otherAddress(c.R, kind, true)
	tr := newTransport(kind, addr, true).Run()
	defer tr.Stop()
	dialRaw(c, kind, addr).Close()
	next28(c, kind, tr, "probe")
	n := 300 + r.Intn(1500)
	var lim syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim); err == nil && lim.Cur < 3*uint64(n) {
		n = int(lim.Cur / 4)
	}
	var ps []pair28
	for i := 0; i < n; i++ {
		raw := dialRaw(c, kind, addr)
		ps = append(ps, pair28{raw, next28(c, kind, tr, fmt.Sprintf("client %d with all others connected", i))})
		if i%64 == 0 {
			c.Tick()
		}
	}
	for _, i := range r.Perm(n) {
		if ps[i].cn.Closed() {
			c.Fail("%s: client %d of %d was closed", kind, i, n)
		}
		ping28(c, kind, ps[i], r.Uint32(), fmt.Sprintf("client %d of %d", i, n))
		c.Tick()
	}
	for _, p := range ps {
		p.raw.Close()
	}
	h.Count("clients", int64(n))
	h.Max("clients_at_once", int64(n))
	c.Sig("many", kind, n)
}

// c28churn: clients come and go, a few stay.
func c28churn(h *H, c *C, kind string) {
	r := c.R
	addr := otherAddress(c.R, kind, true)
	tr := newTransport(kind, addr, true).Run()
	defer tr.Stop()
	dialRaw(c, kind, addr).Close()
	next28(c, kind, tr, "probe")
	n := 500 + r.Intn(h.N(2500, 20000))
	var stay []pair28
	for i := 0; i < n; i++ {
		p := pair28{dialRaw(c, kind, addr), next28(c, kind, tr, fmt.Sprintf("client %d after others left", i))}
		switch k := r.Intn(100); {
		case k == 0:
			stay = append(stay, p)
			continue
		case k < 10:
			ping28(c, kind, p, r.Uint32(), fmt.Sprintf("client %d after others left", i))
		}
		if r.Intn(2) == 0 {
			p.cn.Close()
		}
		p.raw.Close()
		if len(stay) > 0 && r.Intn(50) == 0 {
			ping28(c, kind, stay[r.Intn(len(stay))], r.Uint32(), "a client that stays while others come and go")
		}
		c.Tick()
	}
	for _, p := range stay {
		ping28(c, kind, p, r.Uint32(), "a client that stayed")
		p.raw.Close()
	}
	h.Count("clients", int64(n))
	c.Sig("churn", kind, n)
}

// c28leftover: a socket file was left behind by a process that died.
func c28leftover(h *H, c *C) {
	r := c.R
	addr := newAddress("unix")
	tr := newTransport("unix", addr, true)
	for k := 1 + r.Intn(3); k > 0; k-- {
		l, err := net.ListenUnix("unix", &net.UnixAddr{Name: addr, Net: "unix"})
		if err != nil {
			c.Fail("harness: %v", err)
		}
		l.SetUnlinkOnClose(false)
		l.Close()
		if _, err := os.Lstat(addr); err != nil {
			c.Fail("harness: %v", err)
		}
		tr.Run()
		for j := 1 + r.Intn(3); j > 0; j-- {
			p := pair28{dialRaw(c, "unix", addr), next28(c, "unix", tr, "a client of a server started over a left-over socket file")}
			ping28(c, "unix", p, r.Uint32(), "a client of a server started over a left-over socket file")
			p.raw.Close()
		}
		tr.Stop()
		os.Remove(addr)
		h.Count("leftover_files", 1)
		c.Tick()
	}
	c.Sig("leftover", r.Int63())
}
