package harness

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"time"

	"ustack"
)

// c11part: one side writes and closes while the other has not read yet. What was
// written arrives, in order, before the end of the connection.
func c11part(c *C, kind string) {
	r := c.R
	addr := newAddress(kind)
	sender := r.Intn(2) // 0: the server side
	total := 20000 + r.Intn(70000)
	if kind == "tcp" && r.Intn(3) > 0 {
		total = 150000 + r.Intn(600000) // more than the peer's receive buffer
	}
	longest := 25000
	if r.Intn(3) == 0 { // a few short ones
		longest = 1 + r.Intn(300)
		total = 1 + r.Intn(8*longest)
	}
	gate := make(chan struct{})
	var written atomic.Int64
	var us [2]ustack.UStack
	var tr [2]ustack.Transport
	var ep [2]ustack.EndPoint
	conns := [2]chan ustack.TransportConnection{make(chan ustack.TransportConnection, 4), make(chan ustack.TransportConnection, 4)}
	ended := [2]chan struct{}{make(chan struct{}, 4), make(chan struct{}, 4)}
	for side := 0; side < 2; side++ {
		us[side] = ustack.NewUStack().SetOption("MTU", 30000)
		us[side].AppendDataProcessor(ustack.NewBytesCodec()).AppendDataProcessor(ustack.NewFrameDecoder())
		p := NewProbe("bottom")
		if side == sender {
			p.OnUp = func(ctx ustack.Context) bool {
				p.Low.OnUpperData(ctx)
				written.Add(1)
				return false
			}
		} else {
			p.OnLow = func(ustack.Context) bool { <-gate; return true }
		}
		us[side].AppendDataProcessor(p)
		ep[side] = ustack.NewEndPoint("e", 0)
		us[side].AddEndPoint(ep[side])
		tr[side] = newTransport(kind, addr, side == 0)
		us[side].AddTransport(tr[side])
		us[side].SetEventListener(func(e ustack.Event) {
			switch e.Type {
			case ustack.UStackEventNewConnection:
				conns[side] <- e.Data.(ustack.TransportConnection)
			case ustack.UStackEventConnectionClosed:
				ended[side] <- struct{}{}
			}
		})
		us[side].Run()
	}
	cn := [2]ustack.TransportConnection{<-conns[0], <-conns[1]}
	var msgs [][]byte
	for n := 0; n < total; {
		m := randBytes(r, 1+r.Intn(longest))
		msgs = append(msgs, m)
		n += len(m)
		send(ep[sender], cn[sender], append([]byte(nil), m...))
	}
	// the socket buffers may hold less than that: then nothing can be said
	fits := true
	for spin := 0; int(written.Load()) < len(msgs) && fits; spin++ {
		if spin < 100000 {
			runtime.Gosched() // to close at once
			continue
		}
		time.Sleep(time.Millisecond)
		fits = spin < 103000
	}
	how := r.Intn(3)
	if fits {
		switch how {
		case 0:
			cn[sender].Close()
		case 1:
			tr[sender].Stop()
		case 2:
			us[sender].DeleteTransport(tr[sender])
		}
		c.H.Count("closed_with_data_under_way", 1)
	}
	close(gate)
	rx := ep[1-sender].GetRxChannel()
	var got []ustack.EndPointData
	for done := false; !done; {
		if !fits && len(got) == len(msgs) {
			break
		}
		select {
		case d := <-rx:
			got = append(got, d)
		case <-ended[1-sender]:
			// everything was delivered before
			for len(rx) > 0 {
				got = append(got, <-rx)
			}
			done = true
		}
	}
	if len(got) != len(msgs) {
		c.Fail("%s: %d messages were written before the connection was closed (%d), %d arrived", kind, len(msgs), how, len(got))
	}
	for k := range got {
		b, _ := got[k].GetData().([]byte)
		if string(b) != string(msgs[k]) {
			c.Fail("%s: message %d arrived as %s, sent %s", kind, k, short(b), short(msgs[k]))
		}
	}
	for side := 0; side < 2; side++ {
		us[side].DeleteTransport(tr[side])
	}
	c.H.Count("messages_delivered", int64(len(got)))
	c.Sig(kind, sender, len(msgs), total, how)
	c.Logf("%s: side %d wrote %s in %d messages, closed by %d", kind, sender, fmt.Sprint(total), len(msgs), how)
}
