package harness

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"testing"

	"ustack"
)

// ---------------------------------------------------------------- model
// mbuf is the reference model of a buffer: a bounded deque.
type mbuf struct {
	head, tail int
	data       []byte
	reserved   int
	cap        int
}

func newMbuf(capacity, reserved int) *mbuf {
	return &mbuf{head: reserved, tail: capacity - reserved, reserved: reserved, cap: capacity}
}

func (m *mbuf) clone() *mbuf {
	c := *m
	c.data = append([]byte(nil), m.data...)
	return &c
}

func (m *mbuf) reset() { m.data = nil; m.head = m.reserved; m.tail = m.cap - m.reserved }

// geometry of a fresh buffer
func makeBuf(c *C, r *rand.Rand) (*ustack.UBuf, *mbuf, string) {
	var capacity int
	switch r.Intn(10) {
	case 0:
		capacity = 1 + r.Intn(3)
		if r.Intn(40) == 0 {
			capacity = 65530 + r.Intn(6000)
		}
	case 1:
		capacity = 200 + r.Intn(400)
	case 2:
		capacity = 1000 + r.Intn(4000)
	default:
		capacity = 1 + r.Intn(48)
	}
	reserved := 0
	switch r.Intn(4) {
	case 0:
	case 1:
		reserved = capacity
	default:
		reserved = r.Intn(capacity + 1)
	}
	switch r.Intn(4) {
	case 0:
		return ustack.UBufAlloc(capacity), newMbuf(capacity, 0), fmt.Sprintf("Alloc(%d)", capacity)
	case 1:
		return ustack.UBufAllocWithHeadReserved(capacity, reserved), newMbuf(capacity, reserved),
			fmt.Sprintf("AllocWithHeadReserved(%d,%d)", capacity, reserved)
	case 2:
		l := r.Intn(capacity + 1)
		s := make([]byte, l, capacity)
		r.Read(s[:capacity])
		return ustack.UBufFrom(s), newMbuf(cap(s), 0), fmt.Sprintf("From(len=%d,cap=%d)", l, capacity)
	default:
		l := r.Intn(capacity + 1)
		s := make([]byte, l, capacity)
		r.Read(s[:capacity])
		return ustack.UBufFromWithHeadReserved(s, reserved), newMbuf(cap(s), reserved),
			fmt.Sprintf("FromWithHeadReserved(len=%d,cap=%d,%d)", l, capacity, reserved)
	}
}

// checkState compares everything observable without changing anything.
func checkState(c *C, ub *ustack.UBuf, m *mbuf, what string) {
	if ub.Capacity() != m.cap || ub.ReadableLength() != len(m.data) ||
		ub.HeadWritableLength() != m.head || ub.TailWritableLength() != m.tail {
		c.Fail("%s: capacity/readable/head/tail = %d/%d/%d/%d, expected %d/%d/%d/%d", what,
			ub.Capacity(), ub.ReadableLength(), ub.HeadWritableLength(), ub.TailWritableLength(),
			m.cap, len(m.data), m.head, m.tail)
	}
	if len(m.data) > 0 {
		got := make([]byte, len(m.data))
		n, err := ub.Peek(got)
		if n != len(got) || err != nil {
			c.Fail("%s: Peek of all %d readable bytes gave %d, %v", what, len(got), n, err)
		}
		if !bytes.Equal(got, m.data) {
			c.Fail("%s: content %s, expected %s", what, short(got), short(m.data))
		}
	}
}

type intOps struct {
	name  string
	width int
	le    bool
	write func(u *ustack.UBuf, v uint64) error
	head  func(u *ustack.UBuf, v uint64) error
	read  func(u *ustack.UBuf) (uint64, error)
	peek  func(u *ustack.UBuf) (uint64, error)
}

func r16(f func(*ustack.UBuf) (uint16, error)) func(*ustack.UBuf) (uint64, error) {
	return func(u *ustack.UBuf) (uint64, error) { v, e := f(u); return uint64(v), e }
}
func r32(f func(*ustack.UBuf) (uint32, error)) func(*ustack.UBuf) (uint64, error) {
	return func(u *ustack.UBuf) (uint64, error) { v, e := f(u); return uint64(v), e }
}
func w16(f func(*ustack.UBuf, uint16) error) func(*ustack.UBuf, uint64) error {
	return func(u *ustack.UBuf, v uint64) error { return f(u, uint16(v)) }
}
func w32(f func(*ustack.UBuf, uint32) error) func(*ustack.UBuf, uint64) error {
	return func(u *ustack.UBuf, v uint64) error { return f(u, uint32(v)) }
}

type ub = ustack.UBuf

var ints = []intOps{
	{"U16", 2, false, w16((*ub).WriteU16), w16((*ub).WriteHeadU16), r16((*ub).ReadU16), r16((*ub).PeekU16)},
	{"U32", 4, false, w32((*ub).WriteU32), w32((*ub).WriteHeadU32), r32((*ub).ReadU32), r32((*ub).PeekU32)},
	{"U64", 8, false, (*ub).WriteU64, (*ub).WriteHeadU64, (*ub).ReadU64, (*ub).PeekU64},
	{"U16BE", 2, false, w16((*ub).WriteU16BE), w16((*ub).WriteHeadU16BE), r16((*ub).ReadU16BE), r16((*ub).PeekU16BE)},
	{"U32BE", 4, false, w32((*ub).WriteU32BE), w32((*ub).WriteHeadU32BE), r32((*ub).ReadU32BE), r32((*ub).PeekU32BE)},
	{"U64BE", 8, false, (*ub).WriteU64BE, (*ub).WriteHeadU64BE, (*ub).ReadU64BE, (*ub).PeekU64BE},
	{"U16LE", 2, true, w16((*ub).WriteU16LE), w16((*ub).WriteHeadU16LE), r16((*ub).ReadU16LE), r16((*ub).PeekU16LE)},
	{"U32LE", 4, true, w32((*ub).WriteU32LE), w32((*ub).WriteHeadU32LE), r32((*ub).ReadU32LE), r32((*ub).PeekU32LE)},
	{"U64LE", 8, true, (*ub).WriteU64LE, (*ub).WriteHeadU64LE, (*ub).ReadU64LE, (*ub).PeekU64LE},
}

func (o *intOps) enc(v uint64) []byte {
	b := make([]byte, 8)
	if o.le {
		binary.LittleEndian.PutUint64(b, v)
		return b[:o.width]
	}
	binary.BigEndian.PutUint64(b, v)
	return b[8-o.width:]
}

func (o *intOps) dec(b []byte) uint64 {
	var v uint64
	for i := 0; i < o.width; i++ {
		if o.le {
			v |= uint64(b[i]) << (8 * i)
		} else {
			v = v<<8 | uint64(b[i])
		}
	}
	return v
}

func (o *intOps) randVal(r *rand.Rand) uint64 {
	v := r.Uint64()
	switch r.Intn(6) {
	case 0:
		v = 0
	case 1:
		v = ^uint64(0)
	case 2:
		v = 1 << uint(r.Intn(64))
	case 3:
		v = uint64(r.Intn(300))
	}
	if o.width < 8 {
		v &= 1<<(8*o.width) - 1
	}
	return v
}

// intStep applies one integer operation and compares.
func intStep(c *C, r *rand.Rand, u *ustack.UBuf, m *mbuf, o *intOps, kind int) {
	var before [4]int
	before = [4]int{u.Capacity(), u.ReadableLength(), u.HeadWritableLength(), u.TailWritableLength()}
	_ = before
	switch kind {
	case 0: // tail write
		v := o.randVal(r)
		err := o.write(u, v)
		c.Logf("Write%s(%#x)=%v", o.name, v, err != nil)
		if m.tail >= o.width {
			if err != nil {
				c.Fail("Write%s(%#x) failed with %d bytes free: %v", o.name, v, m.tail, err)
			}
			m.data = append(m.data, o.enc(v)...)
			m.tail -= o.width
		} else if err == nil {
			c.Fail("Write%s succeeded with only %d bytes free", o.name, m.tail)
		}
	case 1: // head write
		v := o.randVal(r)
		err := o.head(u, v)
		c.Logf("WriteHead%s(%#x)=%v", o.name, v, err != nil)
		if m.head >= o.width {
			if err != nil {
				c.Fail("WriteHead%s(%#x) failed with %d bytes of head room: %v", o.name, v, m.head, err)
			}
			m.data = append(o.enc(v), m.data...)
			m.head -= o.width
		} else if err == nil {
			c.Fail("WriteHead%s succeeded with only %d bytes of head room", o.name, m.head)
		}
	case 2, 3:
		f, name := o.read, "Read"
		if kind == 3 {
			f, name = o.peek, "Peek"
		}
		v, err := f(u)
		c.Logf("%s%s=%#x,%v", name, o.name, v, err != nil)
		if len(m.data) >= o.width {
			if err != nil {
				c.Fail("%s%s failed with %d readable bytes: %v", name, o.name, len(m.data), err)
			}
			if want := o.dec(m.data); v != want {
				c.Fail("%s%s gave %#x, expected %#x (readable %s)", name, o.name, v, want, short(m.data))
			}
			if kind == 2 {
				m.data = m.data[o.width:]
				m.head += o.width
			}
		} else if err == nil {
			c.Fail("%s%s succeeded with only %d readable bytes", name, o.name, len(m.data))
		}
	}
	checkState(c, u, m, fmt.Sprintf("after %s kind %d", o.name, kind))
}

func sizeFor(r *rand.Rand, room int) int {
	switch r.Intn(8) {
	case 0:
		return room
	case 1:
		return room + 1 + r.Intn(3)
	case 2:
		if room > 0 {
			return room - 1
		}
		return 0
	case 3:
		return r.Intn(room + 4)
	case 4:
		return 0
	default:
		return r.Intn(6)
	}
}

// bulkStep applies one byte-level operation.
func bulkStep(c *C, r *rand.Rand, u *ustack.UBuf, m *mbuf) string {
	op := ""
	switch r.Intn(14) {
	case 0, 1:
		b := byte(r.Intn(256))
		err := u.WriteByte(b)
		op = fmt.Sprintf("WriteByte(%d)", b)
		c.Logf("%s=%v", op, err != nil)
		if m.tail > 0 {
			if err != nil {
				c.Fail("%s failed with %d bytes free: %v", op, m.tail, err)
			}
			m.data = append(m.data, b)
			m.tail--
		} else if err == nil {
			c.Fail("%s succeeded on a full buffer", op)
		}
	case 2, 3, 4:
		p := randBytes(r, sizeFor(r, m.tail))
		keep := append([]byte(nil), p...)
		n, err := u.Write(p)
		op = fmt.Sprintf("Write(%d)", len(p))
		c.Logf("%s=%d,%v", op, n, err != nil)
		want := len(p)
		if want > m.tail {
			want = m.tail
		}
		if n != want || (len(p) > 0 && (err != nil) != (want < len(p))) {
			c.Fail("%s with %d bytes free gave %d, err %v; expected %d", op, m.tail, n, err, want)
		}
		if !bytes.Equal(p, keep) {
			c.Fail("%s changed the caller's slice", op)
		}
		m.data = append(m.data, p[:n]...)
		m.tail -= n
		r.Read(p) // later changes of the caller's slice must not matter
	case 5:
		b := byte(r.Intn(256))
		err := u.WriteHeadByte(b)
		op = fmt.Sprintf("WriteHeadByte(%d)", b)
		c.Logf("%s=%v", op, err != nil)
		if m.head > 0 {
			if err != nil {
				c.Fail("%s failed with %d bytes of head room: %v", op, m.head, err)
			}
			m.data = append([]byte{b}, m.data...)
			m.head--
		} else if err == nil {
			c.Fail("%s succeeded without head room", op)
		}
	case 6, 7:
		p := randBytes(r, sizeFor(r, m.head))
		keep := append([]byte(nil), p...)
		err := u.WriteHeadBytes(p)
		op = fmt.Sprintf("WriteHeadBytes(%d)", len(p))
		c.Logf("%s=%v", op, err != nil)
		if len(p) > 0 {
			if (err == nil) != (len(p) <= m.head) {
				c.Fail("%s with %d bytes of head room gave %v", op, m.head, err)
			}
			if err == nil {
				m.data = append(append([]byte(nil), p...), m.data...)
				m.head -= len(p)
			}
		}
		if !bytes.Equal(p, keep) {
			c.Fail("%s changed the caller's slice", op)
		}
		r.Read(p)
	case 8:
		b, err := u.ReadByte()
		op = "ReadByte"
		c.Logf("%s=%d,%v", op, b, err != nil)
		if len(m.data) > 0 {
			if err != nil || b != m.data[0] {
				c.Fail("ReadByte gave %d, %v; expected %d", b, err, m.data[0])
			}
			m.data = m.data[1:]
			m.head++
		} else if err == nil {
			c.Fail("ReadByte succeeded on an empty buffer")
		}
	case 9, 10:
		p := make([]byte, sizeFor(r, len(m.data)))
		fill := byte(r.Intn(256))
		for i := range p {
			p[i] = fill
		}
		n, err := u.Read(p)
		op = fmt.Sprintf("Read(%d)", len(p))
		c.Logf("%s=%d,%v", op, n, err != nil)
		want := len(p)
		if want > len(m.data) {
			want = len(m.data)
		}
		// an empty buffer reads as 0 bytes; whether that is an error is not specified here
		if n != want || (want > 0 && (err != nil) != (want < len(p))) {
			c.Fail("%s with %d readable gave %d, err %v", op, len(m.data), n, err)
		}
		if !bytes.Equal(p[:n], m.data[:n]) {
			c.Fail("%s gave %s, expected %s", op, short(p[:n]), short(m.data[:n]))
		}
		for _, b := range p[n:] {
			if b != fill {
				c.Fail("%s wrote past the %d bytes it reported", op, n)
			}
		}
		m.data = m.data[n:]
		m.head += n
		r.Read(p)
	case 11:
		p := make([]byte, sizeFor(r, len(m.data)))
		n, err := u.Peek(p)
		op = fmt.Sprintf("Peek(%d)", len(p))
		c.Logf("%s=%d,%v", op, n, err != nil)
		want := len(p)
		if want > len(m.data) {
			want = len(m.data)
		}
		if n != want || (len(p) > 0 && (err != nil) != (want < len(p))) {
			c.Fail("%s with %d readable gave %d, err %v", op, len(m.data), n, err)
		}
		if !bytes.Equal(p[:n], m.data[:n]) {
			c.Fail("%s gave %s, expected %s", op, short(p[:n]), short(m.data[:n]))
		}
		r.Read(p)
	case 12:
		b, err := u.PeekByte()
		op = "PeekByte"
		c.Logf("%s=%d,%v", op, b, err != nil)
		if len(m.data) > 0 {
			if err != nil || b != m.data[0] {
				c.Fail("PeekByte gave %d, %v; expected %d", b, err, m.data[0])
			}
		} else if err == nil {
			c.Fail("PeekByte succeeded on an empty buffer")
		}
	case 13:
		if r.Intn(3) > 0 {
			return ""
		}
		u.Reset()
		op = "Reset"
		c.Logf("Reset")
		m.reset()
	}
	checkState(c, u, m, "after "+op)
	return op
}

// TestC01 drives random operation histories against the model.
func TestC01(t *testing.T) {
	Plain(t, "C01", func(h *H) {
		// every small geometry with a fixed sweep first
		for capacity := 1; capacity <= 9; capacity++ {
			for reserved := 0; reserved <= capacity; reserved++ {
				for variant := 0; variant < 3; variant++ {
					h.Case(fmt.Sprintf("geo-%d-%d-%d", capacity, reserved, variant), func(c *C) {
						c.Guard("geometry sweep", func() {
							var u *ustack.UBuf
							switch variant {
							case 0:
								u = ustack.UBufAllocWithHeadReserved(capacity, reserved)
							case 1:
								u = ustack.UBufFromWithHeadReserved(make([]byte, c.R.Intn(capacity+1), capacity), reserved)
							case 2:
								u = ustack.UBufFromWithHeadReserved(make([]byte, 0, capacity), reserved)
							}
							m := newMbuf(capacity, reserved)
							checkState(c, u, m, "fresh")
							for i := 0; i < 150; i++ {
								bulkStep(c, c.R, u, m)
							}
							c.Sig(capacity, reserved, variant)
						})
					})
				}
			}
		}
		n := h.N(20000, 300000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				c.Guard("operation history", func() {
					u, m, how := makeBuf(c, c.R)
					c.Logf("%s", how)
					if u == nil {
						c.Fail("%s returned nil", how)
					}
					checkState(c, u, m, "fresh "+how)
					steps := 20 + c.R.Intn(120)
					for s := 0; s < steps; s++ {
						switch x := c.R.Intn(10); {
						case x < 8:
							if op := bulkStep(c, c.R, u, m); op != "" {
								h.Count("bulk_operations", 1)
							}
						default:
							intStep(c, c.R, u, m, &ints[c.R.Intn(len(ints))], c.R.Intn(4))
							h.Count("integer_operations", 1)
						}
					}
					c.Sig(how, steps, len(m.data), m.head, hash64(c.hist))
				})
			})
		}
		// unusable geometries are refused, not half-made
		h.Case("bad-geometry", func(c *C) {
			if ustack.UBufFrom(nil) != nil || ustack.UBufFromWithHeadReserved(make([]byte, 3), 4) != nil {
				c.Fail("a buffer was made with more reserved room than capacity")
			}
			for capacity := -2; capacity <= 4; capacity++ {
				for reserved := -2; reserved <= 6; reserved++ {
					if capacity > 0 && reserved >= 0 && reserved <= capacity {
						continue
					}
					refused := false
					func() {
						defer func() { refused = recover() != nil }()
						ustack.UBufAllocWithHeadReserved(capacity, reserved)
					}()
					if !refused {
						c.Fail("a buffer of %d bytes with %d reserved was allocated", capacity, reserved)
					}
					if capacity >= 0 && ustack.UBufFromWithHeadReserved(make([]byte, capacity), reserved) != nil {
						c.Fail("a slice of %d bytes was wrapped with %d reserved", capacity, reserved)
					}
				}
			}
		})
	})
}

// TestC02 checks encodings at every offset and fill level.
func TestC02(t *testing.T) {
	Plain(t, "C02", func(h *H) {
		// all fill levels of small buffers, all operations, exhaustively
		maxCap := h.N(18, 28)
		for capacity := 1; capacity <= maxCap; capacity++ {
			for head := 0; head <= capacity; head++ {
				for readable := 0; head+readable <= capacity; readable++ {
					h.Case(fmt.Sprintf("level-%d-%d-%d", capacity, head, readable), func(c *C) {
						c.Guard("integer operation", func() {
							for oi := range ints {
								o := &ints[oi]
								for kind := 0; kind < 4; kind++ {
									u := ustack.UBufAllocWithHeadReserved(capacity, head)
									m := newMbuf(capacity, head)
									d := randBytes(c.R, readable)
									if readable > 0 {
										u.Write(d)
										m.data = append(m.data, d...)
										m.tail -= readable
									}
									checkState(c, u, m, "setup")
									intStep(c, c.R, u, m, o, kind)
									if kind == 3 { // a peek equals the next read
										pv, pe := o.peek(u)
										rv, re := o.read(u)
										if pv != rv && pe == nil || (pe == nil) != (re == nil) {
											c.Fail("Peek%s gave %#x,%v but Read gave %#x,%v", o.name, pv, pe, rv, re)
										}
									}
									h.Count("integer_operations", 1)
								}
							}
							c.Sig(capacity, head, readable)
						})
					})
				}
			}
		}
		// every single-byte pattern in every position, and values that differ in one bit
		for oi := range ints {
			o := &ints[oi]
			h.Case("values-"+o.name, func(c *C) {
				c.Guard("value sweep", func() {
					vals := []uint64{0, 1, ^uint64(0)}
					for b := 0; b < 64; b++ {
						vals = append(vals, 1<<uint(b), ^(uint64(1) << uint(b)))
					}
					for i := 0; i < 256; i++ {
						for p := 0; p < o.width; p++ {
							vals = append(vals, uint64(i)<<(8*p))
						}
					}
					for i := 0; i < 200; i++ {
						vals = append(vals, c.R.Uint64())
					}
					for _, v := range vals {
						if o.width < 8 {
							v &= 1<<(8*o.width) - 1
						}
						off := c.R.Intn(12)
						u := ustack.UBufAllocWithHeadReserved(off+40, off+10)
						pre := randBytes(c.R, c.R.Intn(8))
						u.Write(pre)
						if err := o.write(u, v); err != nil {
							c.Fail("Write%s(%#x): %v", o.name, v, err)
						}
						if err := o.head(u, v); err != nil {
							c.Fail("WriteHead%s(%#x): %v", o.name, v, err)
						}
						want := append(append(append([]byte(nil), o.enc(v)...), pre...), o.enc(v)...)
						if got := content(u); !bytes.Equal(got, want) {
							c.Fail("%s of %#x: raw bytes %x, expected %x", o.name, v, got, want)
						}
						pv, e1 := o.peek(u)
						rv, e2 := o.read(u)
						for range pre {
							u.ReadByte()
						}
						rv2, e3 := o.read(u)
						if e1 != nil || e2 != nil || e3 != nil || pv != v || rv != v || rv2 != v {
							c.Fail("%s of %#x read back as %#x/%#x/%#x (%v %v %v)", o.name, v, pv, rv, rv2, e1, e2, e3)
						}
						h.Count("values", 1)
					}
					c.Sig(o.name)
				})
			})
		}
		n := h.N(12000, 200000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				c.Guard("integer history", func() {
					u, m, how := makeBuf(c, c.R)
					c.Logf("%s", how)
					for s := 0; s < 60; s++ {
						if c.R.Intn(6) == 0 {
							bulkStep(c, c.R, u, m)
						} else {
							intStep(c, c.R, u, m, &ints[c.R.Intn(len(ints))], c.R.Intn(4))
							h.Count("integer_operations", 1)
						}
					}
					c.Sig(how, hash64(c.hist))
				})
			})
		}
	})
}

// ---------------------------------------------------------------- C03
var errIO = errors.New("injected i/o fault")

type hostReader struct {
	c      *C
	r      *rand.Rand
	m      *mbuf
	script int
	made   []byte
	calls  int
	last   error
}

func (hr *hostReader) Read(p []byte) (int, error) {
	hr.calls++
	free := hr.m.tail - len(hr.made)
	if len(p) > free {
		hr.c.Fail("a reader was offered %d bytes with only %d free", len(p), free)
	}
	if hr.calls > 1 && hr.last != nil {
		hr.c.Fail("the reader was called again after it had reported %v", hr.last)
	}
	// use all of p as scratch space, as io.Reader may
	for i := range p {
		p[i] = byte(0xA0 + hr.r.Intn(16))
	}
	n := len(p)
	switch hr.r.Intn(5) {
	case 0:
		n = 0
	case 1, 2:
		if len(p) > 0 {
			n = hr.r.Intn(len(p) + 1)
		}
	}
	hr.r.Read(p[:n])
	hr.made = append(hr.made, p[:n]...)
	var err error
	switch hr.r.Intn(4) {
	case 0:
		err = errIO
	case 1:
		err = io.EOF
	}
	if hr.calls > 20 && err == nil {
		err = io.EOF
	}
	hr.last = err
	hr.c.Logf("Read(%d)->%d,%v", len(p), n, err)
	return n, err
}

type hostWriter struct {
	c     *C
	r     *rand.Rand
	m     *mbuf
	taken []byte
	calls int
	last  error
}

func (hw *hostWriter) Write(p []byte) (int, error) {
	hw.calls++
	left := hw.m.data[len(hw.taken):]
	if len(p) > len(left) || !bytes.Equal(p, left[:len(p)]) {
		hw.c.Fail("a writer was offered %s, readable is %s", short(p), short(left))
	}
	if hw.calls > 1 && hw.last != nil {
		hw.c.Fail("the writer was called again after it had reported %v", hw.last)
	}
	n := len(p)
	var err error
	switch hw.r.Intn(5) {
	case 0:
		n = 0
		err = errIO
	case 1:
		n = hw.r.Intn(len(p) + 1)
		err = errIO
	case 2:
		n = hw.r.Intn(len(p) + 1)
		if n < len(p) && hw.r.Intn(2) == 0 {
			err = io.ErrShortWrite
		}
	case 3:
		err = errIO // everything taken, and yet an error
	}
	if hw.calls > 20 && err == nil {
		err = errIO
	}
	hw.taken = append(hw.taken, p[:n]...)
	hw.last = err
	hw.c.Logf("Write(%d)->%d,%v", len(p), n, err)
	return n, err
}

// transferStep does one faulty ReadFrom or WriteTo and checks conservation.
func transferStep(c *C, r *rand.Rand, u *ustack.UBuf, m *mbuf) {
	if r.Intn(2) == 0 {
		hr := &hostReader{c: c, r: r, m: m}
		n, err := u.ReadFrom(hr)
		c.Logf("ReadFrom=%d,%v", n, err)
		if int(n) != len(hr.made) {
			c.Fail("ReadFrom reported %d bytes, the reader produced %d", n, len(hr.made))
		}
		if hr.last != nil && !errors.Is(err, hr.last) {
			c.Fail("ReadFrom returned %v, the reader reported %v", err, hr.last)
		}
		if hr.calls > 0 && hr.last == nil && err != nil {
			c.Fail("ReadFrom returned %v, the reader reported no error", err)
		}
		if hr.calls == 0 && m.tail > 0 {
			c.Fail("ReadFrom did not read at all with %d bytes free", m.tail)
		}
		m.data = append(m.data, hr.made...)
		m.tail -= len(hr.made)
	} else {
		hw := &hostWriter{c: c, r: r, m: m}
		n, err := u.WriteTo(hw)
		c.Logf("WriteTo=%d,%v", n, err)
		if int(n) != len(hw.taken) {
			c.Fail("WriteTo reported %d bytes, the writer took %d", n, len(hw.taken))
		}
		if hw.last != nil && !errors.Is(err, hw.last) {
			c.Fail("WriteTo returned %v, the writer reported %v", err, hw.last)
		}
		if hw.calls == 0 && len(m.data) > 0 {
			c.Fail("WriteTo did not write at all with %d bytes readable", len(m.data))
		}
		m.data = m.data[len(hw.taken):]
		m.head += len(hw.taken)
	}
	checkState(c, u, m, "after transfer")
}

// TestC03 checks conservation under faulty readers and writers.
func TestC03(t *testing.T) {
	Plain(t, "C03", func(h *H) {
		n := h.N(40000, 500000)
		for i := 0; i < n; i++ {
			h.Case(fmt.Sprintf("rnd-%d", i), func(c *C) {
				c.Guard("transfer", func() {
					u, m, how := makeBuf(c, c.R)
					c.Logf("%s", how)
					for s := 0; s < 30; s++ {
						if c.R.Intn(3) == 0 {
							bulkStep(c, c.R, u, m)
						} else {
							transferStep(c, c.R, u, m)
							h.Count("transfers", 1)
						}
					}
					c.Sig(how, hash64(c.hist))
				})
			})
		}
		// buffer to buffer through the standard library
		for i := 0; i < h.N(1500, 20000); i++ {
			h.Case(fmt.Sprintf("copy-%d", i), func(c *C) {
				c.Guard("copy", func() {
					a, ma, how := makeBuf(c, c.R)
					b, mb, how2 := makeBuf(c, c.R)
					c.Logf("%s -> %s", how, how2)
					for s := 0; s < 12; s++ {
						bulkStep(c, c.R, a, ma)
						bulkStep(c, c.R, b, mb)
					}
					avail := len(ma.data)
					if avail > mb.tail {
						avail = mb.tail
					}
					k := 0
					if avail > 0 {
						k = 1 + c.R.Intn(avail)
					}
					var got int64
					var err error
					if k > 0 {
						got, err = io.CopyN(b, a, int64(k))
						c.Logf("CopyN(%d)=%d,%v", k, got, err)
						if got != int64(k) || err != nil {
							c.Fail("io.CopyN of %d bytes between buffers gave %d, %v", k, got, err)
						}
						mb.data = append(mb.data, ma.data[:k]...)
						mb.tail -= k
						ma.data = ma.data[k:]
						ma.head += k
						checkState(c, a, ma, "source after CopyN")
						checkState(c, b, mb, "target after CopyN")
						c.Sig(how, how2, k)
					}
					var out bytes.Buffer
					n, err := a.WriteTo(&out)
					if int(n) != len(ma.data) || err != nil || !bytes.Equal(out.Bytes(), ma.data) {
						c.Fail("WriteTo a bytes.Buffer gave %d, %v, %s; expected %s", n, err, short(out.Bytes()), short(ma.data))
					}
					h.Count("transfers", 2)
				})
			})
		}
	})
}
