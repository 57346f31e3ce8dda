package harness

import (
	"encoding/binary"
	"errors"
	"io"
	"math/rand"

	"ustack"
)

// Node is a whole stack on harness transports.
type Node struct {
	US     ustack.UStack
	Tr     *MemTransport
	Events Bag[ustack.Event]
}

// NewNode builds and runs a stack with one MemTransport.
func NewNode(mtu int, procs []ustack.DataProcessor, eps ...ustack.EndPoint) *Node {
	n := &Node{US: ustack.NewUStack(), Tr: NewMemTransport("mem")}
	if mtu > 0 {
		n.US.SetOption("MTU", mtu)
	}
	for _, p := range procs {
		n.US.AppendDataProcessor(p)
	}
	for _, e := range eps {
		n.US.AddEndPoint(e)
	}
	n.US.AddTransport(n.Tr)
	n.US.SetEventListener(func(e ustack.Event) { n.Events.Add(e) })
	n.US.Run()
	return n
}

// EventsFor counts events of one type about one connection.
func (n *Node) EventsFor(typ int, data interface{}) int {
	k := 0
	for _, e := range n.Events.All() {
		if e.Type == typ && e.Data == data {
			k++
		}
	}
	return k
}

// Shut removes everything so that the stack's goroutines end.
func (n *Node) Shut() {
	n.US.DeleteTransport(n.Tr)
	for _, e := range append([]ustack.EndPoint(nil), n.US.GetEndPoint()...) {
		n.US.DeleteEndPoint(e)
	}
}

// drain takes what is queued at an endpoint, letting the stack refill it, until quiet.
// Only inside a bubble.
func drain(ep ustack.EndPoint) []ustack.EndPointData {
	var l []ustack.EndPointData
	for {
		Settle()
		n := len(l)
	inner:
		for {
			select {
			case d := <-ep.GetRxChannel():
				l = append(l, d)
			default:
				break inner
			}
		}
		if len(l) == n {
			return l
		}
	}
}

// send queues data on an endpoint.
func send(ep ustack.EndPoint, c ustack.TransportConnection, data interface{}) {
	ep.GetTxChannel() <- ustack.NewEndPointData().SetConnection(c).SetData(data)
}

// sendTo queues data for a destination session.
func sendTo(ep ustack.EndPoint, c ustack.TransportConnection, data interface{}, session int) {
	ep.GetTxChannel() <- ustack.NewEndPointData().SetConnection(c).SetData(data).SetDestinationSession(session)
}

func be32(v uint32) []byte {
	b := make([]byte, 4)
	binary.BigEndian.PutUint32(b, v)
	return b
}

// frame is the wire form of one message under the frame decoder.
func frame(p []byte) []byte { return append(be32(uint32(len(p))), p...) }

// cut splits a stream into segments of at most max bytes.
func cut(r *rand.Rand, s []byte, max int) [][]byte {
	var out [][]byte
	mode := r.Intn(5)
	coarse := len(s) / 500 // what follows the first thousand segments comes in larger ones
	for len(s) > 0 {
		n := 1
		switch mode {
		case 0:
		case 1:
			n = 1 + r.Intn(5)
		case 2:
			n = 1 + r.Intn(max)
		case 3:
			n = max
		case 4:
			if r.Intn(2) == 0 {
				n = 1 + r.Intn(4)
			} else {
				n = 1 + r.Intn(max)
			}
		}
		if len(out) > 1000 && n < coarse {
			n = coarse
		}
		if n > max {
			n = max
		}
		if n > len(s) {
			n = len(s)
		}
		out = append(out, s[:n])
		s = s[n:]
	}
	return out
}

// cutter makes a Cutter with its own random source (used by one goroutine at a time
// under the connection's write path; guarded by the caller's serialisation).
func cutter(seed int64, max int) Cutter {
	r := rand.New(rand.NewSource(seed))
	var lock = make(chan struct{}, 1)
	return func(p []byte) [][]byte {
		lock <- struct{}{}
		defer func() { <-lock }()
		return cut(r, p, max)
	}
}

// wire tags of the control layers
const (
	tagBeat = ustack.HeartbeatSelfMessageTag
	tagReq  = ustack.StatCounterSelfMessageReqTag
	tagRes  = ustack.StatCounterSelfMessageResTag
)

// upTag is the tag a layer puts before application data.
func upTag(layer string) byte {
	switch layer {
	case "hb":
		return ustack.HeartbeatUplayerMessageTag
	case "stat":
		return ustack.StatCounterUplayerMessageTag
	}
	return ustack.LoadBalancerUplayerMessageTag
}

// anyCodec passes bytes on and takes whatever arrives for a message, even nothing at all.
func anyCodec() ustack.DataProcessor {
	return ustack.NewGenericCodec(nil,
		func(m interface{}, w io.Writer) error {
			b, ok := m.([]byte)
			if !ok {
				return errors.New("not bytes")
			}
			_, err := w.Write(b)
			return err
		},
		func(r io.Reader) (interface{}, error) {
			b, _ := io.ReadAll(r)
			return b, nil
		})
}
