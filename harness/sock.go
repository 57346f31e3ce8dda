package harness

import (
	"fmt"
	"math/rand"
	"net"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"ustack"
)

var sockSeq int64

// scratchDir is a directory of this process.
func scratchDir() string {
	d := os.Getenv("VERIF_SCRATCH")
	if d == "" {
		d = filepath.Join(os.TempDir(), fmt.Sprintf("verif-%d", os.Getpid()))
		os.MkdirAll(d, 0o755)
	}
	return d
}

var loopOnce sync.Once
var loopAddr = net.IPv4(127, 0, 0, 1)

// loopIP is a loopback address only this process uses: other processes on the
// machine neither listen on it nor dial it, and dialling it never connects to itself.
func loopIP() net.IP {
	loopOnce.Do(func() {
		x := hash64(os.Getpid(), time.Now().UnixNano(), os.Getenv("VERIF_SCRATCH"))
		ip := net.IPv4(127, byte(2+x%200), byte(x>>16), byte(1+(x>>32)%250))
		if l, err := net.Listen("tcp", ip.String()+":0"); err == nil {
			l.Close()
			loopAddr = ip
		}
	})
	return loopAddr
}

// newAddress gives an unused address below the ephemeral port range, or a socket path.
func newAddress(kind string) string {
	for {
		n := atomic.AddInt64(&sockSeq, 1)
		if kind == "unix" {
			// relative to the process' working directory (the scratch dir): paths are limited
			return filepath.Join(scratchDir(), fmt.Sprintf("s%d", n))
		}
		port := 20000 + (int64(os.Getpid())*131+n)%10000
		a := fmt.Sprintf("%s:%d", loopIP(), port)
		l, err := net.Listen("tcp", a)
		if err != nil {
			continue
		}
		l.Close()
		return a
	}
}

// otherAddress is an unused address of another form: IPv6, or where named, by name or for
// all interfaces.
func otherAddress(r *rand.Rand, kind string, named bool) string {
	if kind != "tcp" || r.Intn(4) > 0 {
		return newAddress(kind)
	}
	forms := []string{"[::1]"}
	if named {
		forms = []string{"[::1]", "localhost", ""}
	}
	host := forms[r.Intn(len(forms))]
	for k := 0; k < 20; k++ {
		a := fmt.Sprintf("%s:%d", host, 20000+(int64(os.Getpid())*131+atomic.AddInt64(&sockSeq, 1))%10000)
		if l, err := net.Listen("tcp", a); err == nil {
			l.Close()
			return a
		}
	}
	return newAddress(kind) // not here
}

// newTransport makes a TCP or unix-socket transport; clients retry without delay.
func newTransport(kind, addr string, server bool) ustack.Transport {
	var t ustack.Transport
	if kind == "unix" {
		t = ustack.NewUDSTransport("uds")
	} else {
		t = ustack.NewTCPTransport("tcp")
	}
	t.SetAddress(addr)
	if !server { // a transport is a server by default
		t.ForServer(false).SetOption("RetryIntervalInSecond", 0).SetOption("MaxRetryCount", 1<<30)
	}
	return t
}
