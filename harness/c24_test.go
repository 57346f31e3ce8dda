package harness

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"ustack"
)

// watcher is a server socket watched by the harness. Its goroutines live outside of
// the bubble: waiting for a client must not hold back virtual time.
type watcher struct {
	cmd  chan func()
	done chan struct{}

	mu    sync.Mutex
	l     net.Listener
	conns []*watched
}

type watched struct {
	cn     net.Conn
	first  atomic.Int32 // first byte it sent (0: none yet)
	closed atomic.Bool  // the other side closed it
}

func newWatcher() *watcher {
	w := &watcher{cmd: make(chan func()), done: make(chan struct{})}
	go func() {
		for f := range w.cmd {
			f()
			w.done <- struct{}{}
		}
	}()
	return w
}

func (w *watcher) do(f func()) {
	w.cmd <- f
	<-w.done
}

func (w *watcher) listen(c *C, kind, addr string) {
	var err error
	w.do(func() {
		var l net.Listener
		l, err = net.Listen(kind, addr)
		if err != nil {
			return
		}
		w.l = l
		go func() {
			for {
				cn, err := l.Accept()
				if err != nil {
					return
				}
				x := &watched{cn: cn}
				w.mu.Lock()
				w.conns = append(w.conns, x)
				w.mu.Unlock()
				go func() {
					b := make([]byte, 1)
					for {
						n, err := cn.Read(b)
						if n > 0 {
							x.first.CompareAndSwap(0, int32(b[0]))
						}
						if err != nil {
							x.closed.Store(true)
							return
						}
					}
				}()
			}
		}()
	})
	if err != nil {
		c.Abort("listen: %v", err)
	}
}

func (w *watcher) shut() {
	w.do(func() {
		if w.l != nil {
			w.l.Close()
			w.l = nil
		}
		w.mu.Lock()
		for _, x := range w.conns {
			x.cn.Close()
		}
		w.conns = nil
		w.mu.Unlock()
	})
}

// clients dials a marker and returns the connections that arrived before it.
func (w *watcher) clients(c *C, kind, addr string) []*watched {
	var out []*watched
	fail := ""
	w.do(func() {
		m, err := net.DialTimeout(kind, addr, 30*time.Second)
		if err != nil {
			fail = err.Error()
			return
		}
		m.Write([]byte("M"))
		defer m.Close()
		for k := 0; k < 30000; k++ {
			w.mu.Lock()
			l := append([]*watched(nil), w.conns...)
			w.mu.Unlock()
			out = nil
			for i, x := range l {
				if x.first.Load() == 'M' {
					x.first.Store('m')
					w.mu.Lock()
					w.conns = append(append([]*watched(nil), l[:i]...), w.conns[i+1:]...)
					w.mu.Unlock()
					x.cn.Close()
					return
				}
				out = append(out, x)
			}
			time.Sleep(time.Millisecond)
		}
		fail = "the marker did not arrive"
	})
	if fail != "" {
		c.Abort("%s", fail)
	}
	return out
}

// until waits in real time.
func (w *watcher) until(f func() bool) bool {
	ok := false
	w.do(func() {
		for k := 0; k < 30000; k++ {
			if ok = f(); ok {
				return
			}
			time.Sleep(time.Millisecond)
		}
	})
	return ok
}

func TestC24(t *testing.T) {
	w := newWatcher()
	Bubble(t, "C24", func(h *H) {
		for i := 0; i < h.N(20, 200); i++ {
			h.Case(fmt.Sprintf("zero-%d", i), func(c *C) { c24zero(h, c, []string{"tcp", "unix"}[i%2]) })
		}
		for i := 0; i < h.N(300, 6000); i++ {
			h.Case(fmt.Sprintf("retry-%d", i), func(c *C) { c24(h, c, w, []string{"tcp", "unix"}[i%2]) })
		}
	})
}

type c24next struct {
	cn ustack.TransportConnection
	at time.Duration
}

func c24(h *H, c *C, w *watcher, kind string) {
	r := c.R
	addr := otherAddress(r, kind, false)
	tr := ustack.NewTCPTransport("c")
	if kind == "unix" {
		tr = ustack.NewUDSTransport("c")
	}
	tr.ForServer(false).SetAddress(addr)
	rounds := 1 + r.Intn(3)
	for round := 0; round < rounds; round++ {
		max, iv := 1+r.Intn(8), 1+r.Intn(6)
		switch r.Intn(8) {
		case 0:
			max = 0
		case 1:
			iv = 7 + r.Intn(4000)
		case 2:
			max, iv = 100+r.Intn(400), 1+r.Intn(2)
		}
		if r.Intn(6) == 0 {
			max, iv = 180, 1
			tr.SetOption("MaxRetryCount", nil).SetOption("RetryIntervalInSecond", nil)
		} else {
			tr.SetOption("MaxRetryCount", max).SetOption("RetryIntervalInSecond", iv)
		}
		s := time.Duration(iv) * time.Second
		ms := func(n int) time.Duration { return time.Duration(n) * time.Millisecond }
		giveUp := s * time.Duration(max)
		// the server appears (never: after everything), not at the moment of an attempt
		appear := time.Duration(r.Int63n(int64(giveUp)+int64(s)))/time.Millisecond*time.Millisecond + ms(1)
		if appear%time.Second == 0 {
			appear += ms(7)
		}
		switch r.Intn(5) {
		case 0:
			appear = 0
		case 1:
			appear = 2*giveUp + time.Hour
		}
		stop := time.Duration(-1)
		if r.Intn(3) == 0 {
			stop = time.Duration(r.Int63n(int64(giveUp)+1))/time.Millisecond*time.Millisecond + ms(3)
			if stop%time.Second == 0 {
				stop += ms(3)
			}
			if stop == appear {
				stop += ms(1)
			}
		}
		c.Logf("%s round %d: %d attempts every %v, server appears after %v, stop after %v", kind, round, max, s, appear, stop)
		c.Sig(kind, max, iv, appear, stop)
		start := time.Now()
		if appear == 0 {
			w.listen(c, kind, addr)
		}
		tr.Run()
		consumers := 1 + r.Intn(2)
		got := make(chan c24next, 4)
		for k := 0; k < consumers; k++ {
			go func() {
				cn := tr.NextConnection()
				got <- c24next{cn, time.Since(start)}
			}()
		}
		// run the schedule
		listening := appear == 0
		stopped := false
		var res []c24next
		collect := func() {
			for {
				select {
				case x := <-got:
					res = append(res, x)
					continue
				default:
				}
				return
			}
		}
		at := func(d time.Duration) {
			if left := d - time.Since(start); left > 0 {
				time.Sleep(left)
			}
			Settle()
			collect()
		}
		end := giveUp + s
		first, second := appear, stop
		doAppear := func() { w.listen(c, kind, addr); listening = true }
		doStop := func() { tr.Stop(); stopped = true; Settle(); collect() }
		if appear > 0 && appear <= end && (stop < 0 || first < second) {
			at(appear)
			doAppear()
			if stop >= 0 {
				at(stop)
				doStop()
			}
		} else if stop >= 0 {
			at(stop)
			doStop()
			if appear > 0 && appear <= end {
				at(appear)
				doAppear()
			}
		}
		at(end + ms(1))
		// what had to happen
		connects := appear <= s*time.Duration(max-1) && (stop < 0 || appear < stop)
		// the stop may come before the next attempt
		mayMiss := stop >= 0 && stop <= appear+s
		var conn ustack.TransportConnection
		for _, x := range res {
			if x.cn == nil {
				continue
			}
			if conn != nil {
				c.Fail("%s: two connections were delivered", kind)
			}
			conn = x.cn
			if x.at < appear {
				c.Fail("%s: a connection was delivered after %v, before there was a server", kind, x.at)
			}
			if x.at > appear+s {
				c.Fail("%s: the server was there after %v, the connection came after %v with attempts every %v", kind, appear, x.at, s)
			}
			if stop >= 0 && x.at > stop {
				c.Fail("%s: a connection was delivered after the stop", kind)
			}
		}
		if connects && !mayMiss && conn == nil {
			c.Fail("%s: no connection although the server was there after %v (%d attempts every %v)", kind, appear, max, s)
		}
		if conn != nil && max == 0 {
			c.Fail("%s: a connection although no attempt was allowed", kind)
		}
		if conn != nil && appear > giveUp {
			c.Fail("%s: a connection after the last attempt", kind)
		}
		if conn == nil {
			// all waiting ended with none
			if len(res) != consumers {
				c.Fail("%s: %d of %d waiters for a connection returned after the attempts ended (stop: %v)", kind, len(res), consumers, stop)
			}
			for _, x := range res {
				if stop >= 0 && x.at < giveUp-s && x.at != stop {
					c.Fail("%s: waiting ended after %v, the stop came after %v", kind, x.at, stop)
				}
				if (stop < 0 || stop > giveUp) && (x.at < giveUp-s || x.at > giveUp) {
					c.Fail("%s: gave up after %v with %d attempts every %v", kind, x.at, max, s)
				}
			}
			h.Count("given_up_or_stopped", 1)
		} else {
			if !stopped {
				// works, and is with our server
				if _, err := conn.Write([]byte("c")); err != nil {
					c.Fail("%s: the delivered connection does not work: %v", kind, err)
				}
				cl := w.clients(c, kind, addr)
				if len(cl) != 1 {
					c.Fail("%s: the server got %d connections", kind, len(cl))
				}
				if !w.until(func() bool { return cl[0].first.Load() == 'c' }) {
					c.Fail("%s: the delivered connection is not one to the configured address", kind)
				}
				if conn.Closed() {
					c.Fail("%s: the delivered connection is closed", kind)
				}
			}
			h.Count("connected", 1)
			switch r.Intn(4) {
			case 0:
				conn.Close()
			case 1:
				if cl := w.clients(c, kind, addr); len(cl) == 1 {
					cl[0].cn.Close()
				}
			}
		}
		// nothing more happens from now on
		if !listening {
			w.listen(c, kind, addr)
		}
		time.Sleep(giveUp + 10*s)
		Settle()
		collect()
		before := 0
		if conn != nil {
			before = 1
		}
		cl := w.clients(c, kind, addr)
		open := 0
		for _, x := range cl {
			if stopped || conn == nil {
				// dialled before the stop: closed without being used
				if !w.until(x.closed.Load) {
					open++
				}
			}
		}
		if len(cl) > 1 || (conn == nil && stop < 0 && len(cl) != 0) || open > 0 || (conn != nil && len(cl) != before) {
			c.Fail("%s: the server saw %d connections (%d still open), delivered %d", kind, len(cl), open, before)
		}
		if conn == nil && stop >= 0 && appear > stop && len(cl) != 0 {
			c.Fail("%s: an attempt after the stop", kind)
		}
		if conn != nil && !stopped {
			// further waiters block until the stop
			n := 0
			for _, x := range res {
				if x.cn == nil {
					n++
				}
			}
			if n != 0 {
				c.Fail("%s: waiting for a second connection ended without a stop", kind)
			}
		}
		tr.Stop()
		Settle()
		collect()
		if len(res) != consumers {
			c.Fail("%s: a waiter for a connection is stuck after the stop", kind)
		}
		if cn := tr.NextConnection(); cn != nil {
			c.Fail("%s: a stopped transport delivers a connection", kind)
		}
		if conn != nil && !conn.Closed() {
			c.Fail("%s: the connection is open after the stop", kind)
		}
		w.shut()
		if kind == "unix" {
			os.Remove(addr)
		}
	}
}

// TestC24hang: stopped while an attempt hangs in the network, or at any moment of a
// successful one.
func TestC24hang(t *testing.T) {
	Plain(t, "C24hang", func(h *H) {
		for i := 0; i < h.N(1, 10); i++ {
			h.Case(fmt.Sprintf("hang-%d", i), func(c *C) {
				var wg sync.WaitGroup
				for k := 0; k < 8; k++ {
					sub := c.Sub()
					sub.R = rand.New(rand.NewSource(c.R.Int63()))
					wg.Add(1)
					go func() { defer wg.Done(); c24hang(h, sub) }()
				}
				wg.Wait()
				c.Sig("hang", i)
				c.Logf("8 clients stopped while their attempts hang")
			})
		}
		for i := 0; i < h.N(60, 600); i++ {
			h.Case(fmt.Sprintf("stop-%d", i), func(c *C) { c24stop(h, c, []string{"tcp", "unix"}[i%2]) })
		}
	})
}

// c24zero: an interval of zero, attempts follow one another.
func c24zero(h *H, c *C, kind string) {
	r := c.R
	addr := newAddress(kind)
	max := 1 + r.Intn(150)
	tr := newTransport(kind, addr, false).SetOption("MaxRetryCount", max).SetOption("RetryIntervalInSecond", 0)
	for round := 0; round < 2; round++ {
		start := time.Now()
		tr.Run()
		got := make(chan c24next, 1)
		go func() {
			cn := tr.NextConnection()
			got <- c24next{cn, time.Since(start)}
		}()
		time.Sleep(500 * time.Millisecond)
		Settle()
		select {
		case x := <-got:
			if x.cn != nil {
				c.Fail("%s: a connection although no server is there", kind)
			}
		default:
			c.Fail("%s: %d attempts with an interval of zero did not end in half a second", kind, max)
		}
	}
	h.Count("rounds", 2)
	c.Sig("zero", kind, max)
}

// c24stop: a listening server, the client is stopped a moment after it was started.
func c24stop(h *H, c *C, kind string) {
	r := c.R
	addr := newAddress(kind)
	w := newWatcher()
	w.listen(c, kind, addr)
	tr := newTransport(kind, addr, false)
	runs, delivered := 10+r.Intn(20), 0
	for k := 0; k < runs; k++ {
		if r.Intn(2) == 0 {
			tr.SetOption("RetryIntervalInSecond", 1)
		} else {
			tr.SetOption("RetryIntervalInSecond", 0)
		}
		tr.Run()
		var got Bag[ustack.TransportConnection]
		var wg sync.WaitGroup
		if r.Intn(3) > 0 {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					cn := tr.NextConnection()
					if cn == nil {
						return
					}
					got.Add(cn)
				}
			}()
		}
		if r.Intn(3) > 0 {
			spin(r, 400)
		} else {
			time.Sleep(time.Duration(r.Intn(800)) * time.Microsecond)
		}
		tr.Stop()
		n := got.Len()
		if cn := tr.NextConnection(); cn != nil {
			c.Fail("%s: a stopped client delivers a connection", kind)
		}
		wg.Wait()
		l := got.All()
		if len(l) > 1 {
			c.Fail("%s: %d connections were delivered", kind, len(l))
		}
		for _, cn := range l {
			if !cn.Closed() {
				c.Fail("%s: a delivered connection is open after the stop (%d of %d came before)", kind, n, len(l))
			}
		}
		delivered += len(l)
	}
	// a dial in flight at a stop may arrive a little later
	time.Sleep(2 * time.Millisecond)
	cl := w.clients(c, kind, addr)
	if len(cl) > runs || len(cl) < delivered {
		c.Fail("%s: %d connections reached the server in %d runs, %d were delivered", kind, len(cl), runs, delivered)
	}
	for _, x := range cl {
		if !w.until(x.closed.Load) {
			c.Fail("%s: a connection of a stopped client is open after 30 s", kind)
		}
	}
	h.Count("stopped_runs", int64(runs))
	h.Count("stopped_runs_connected", int64(len(cl)))
	h.Count("stopped_runs_delivered", int64(delivered))
	c.Sig(kind, runs, delivered, len(cl))
	c.Logf("%s: %d runs, %d reached the server, %d delivered", kind, runs, len(cl), delivered)
	w.shut()
	if kind == "unix" {
		os.Remove(addr)
	}
}

func c24hang(h *H, c *C) {
	r := c.R
	// a listener whose queue is full: further clients hang
	fd, err := syscall.Socket(syscall.AF_INET, syscall.SOCK_STREAM, 0)
	if err != nil {
		c.Abort("%v", err)
	}
	var ip [4]byte
	copy(ip[:], loopIP().To4())
	if err := syscall.Bind(fd, &syscall.SockaddrInet4{Addr: ip}); err != nil {
		c.Abort("%v", err)
	}
	syscall.Listen(fd, 0)
	sa, _ := syscall.Getsockname(fd)
	addr := net.JoinHostPort(loopIP().String(), fmt.Sprint(sa.(*syscall.SockaddrInet4).Port))
	f := os.NewFile(uintptr(fd), "l")
	l, err := net.FileListener(f)
	f.Close()
	if err != nil {
		c.Abort("%v", err)
	}
	var fill []net.Conn
	full := false
	for k := 0; k < 16 && !full; k++ {
		cn, err := net.DialTimeout("tcp", addr, 300*time.Millisecond)
		if err != nil {
			full = true
			break
		}
		fill = append(fill, cn)
	}
	c.Logf("queue full after %d connections", len(fill))
	iv := r.Intn(2)
	tr := ustack.NewTCPTransport("c").ForServer(false).SetAddress(addr).SetOption("RetryIntervalInSecond", iv).SetOption("MaxRetryCount", 1000)
	tr.Run()
	got := make(chan ustack.TransportConnection, 1)
	go func() { got <- tr.NextConnection() }()
	time.Sleep(time.Duration(20+r.Intn(1500)) * time.Millisecond)
	tr.Stop()
	select {
	case cn := <-got:
		if cn != nil {
			c.Fail("a connection was delivered although the queue of the server is full")
		}
	case <-time.After(30 * time.Second):
		c.Fail("waiting for a connection does not end after the stop")
	}
	// now the hanging attempt may get through: it must be closed, and be the last
	for range fill {
		cn, err := l.Accept()
		if err != nil {
			c.Abort("%v", err)
		}
		cn.Close()
	}
	for _, cn := range fill {
		cn.Close()
	}
	late := 0
	l.(*net.TCPListener).SetDeadline(time.Now().Add(time.Duration(3500+r.Intn(1000)) * time.Millisecond))
	for {
		cn, err := l.Accept()
		if err != nil {
			break
		}
		late++
		ended(c, "attempt that got through after the stop", cn)
	}
	c.Tick()
	if late > 2 {
		// the one of the filling that timed out may be among them
		c.Fail("%d connections arrived after the stop", late)
	}
	l.Close()
	if full {
		h.Count("hanging_attempts", 1)
	}
	h.Count("late_connections", int64(late))
}
