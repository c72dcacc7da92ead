// overlay: rtp
package rtp

import (
	"bytes"
	"encoding/binary"
	"errors"
	"io"
	"math/rand"
	"net"
	"sync"
	"testing"
	"time"

	"github.com/pion/rtp"

	"github.com/livekit/protocol/logger"
)

type verifC27Conn struct {
	net.Conn
	in     chan []byte
	mu     sync.Mutex
	out    [][]byte
	err    error
	closed chan struct{}
	once   sync.Once
}

func (c *verifC27Conn) Read(p []byte) (int, error) {
	select {
	case b := <-c.in:
		return copy(p, b), nil
	case <-c.closed:
		return 0, net.ErrClosed
	}
}

func (c *verifC27Conn) Write(p []byte) (int, error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err != nil {
		return 0, c.err
	}
	c.out = append(c.out, append([]byte(nil), p...))
	return len(p), nil
}

func (c *verifC27Conn) Close() error { c.once.Do(func() { close(c.closed) }); return nil }

func verifC27Session() (*verifC27Conn, Session) {
	c := &verifC27Conn{in: make(chan []byte), closed: make(chan struct{})}
	return c, NewSession(logger.GetLogger(), c)
}

func verifC27Packet(rnd *rand.Rand, ssrc uint32, sn uint16, size int) ([]byte, *rtp.Header, []byte) {
	h := &rtp.Header{Version: 2, PayloadType: uint8(rnd.Intn(128)), Marker: rnd.Intn(2) == 0, SequenceNumber: sn, Timestamp: rnd.Uint32(), SSRC: ssrc}
	for i := rnd.Intn(4); i > 0; i-- {
		h.CSRC = append(h.CSRC, rnd.Uint32())
	}
	for i := uint8(1); i < uint8(rnd.Intn(4)); i++ {
		b := make([]byte, 1+rnd.Intn(16))
		rnd.Read(b)
		if err := h.SetExtension(i, b); err != nil {
			panic(err)
		}
	}
	payload := make([]byte, size)
	rnd.Read(payload)
	buf, err := h.Marshal()
	if err != nil {
		panic(err)
	}
	return append(buf, payload...), h, payload
}

// Every packet goes out as one datagram of header and payload.
func TestVerifC27Write(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	c, s := verifC27Session()
	defer s.Close()
	w, err := s.OpenWriteStream()
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 2000; i++ {
		exp, h, payload := verifC27Packet(rnd, rnd.Uint32(), uint16(i), []int{0, 1, 20, 160, 1000, 1400, 3000}[rnd.Intn(7)])
		c.err = nil
		if i%10 == 9 {
			c.err = errors.New("write")
		}
		c.out = nil
		n, err := w.WriteRTP(h, payload)
		if c.err != nil {
			if err != c.err {
				t.Fatalf("FAILING-INPUT C27: write error reported as %v", err)
			}
			continue
		}
		if err != nil || n != len(exp) || len(c.out) != 1 || !bytes.Equal(c.out[0], exp) {
			t.Fatalf("FAILING-INPUT C27: packet %d of %d payload bytes: %d datagrams, n=%d of %d, err=%v", i, len(payload), len(c.out), n, len(exp), err)
		}
	}
}

// Datagrams of several sources, with bad ones between them, read after they were all accepted.
func TestVerifC27Demux(t *testing.T) {
	for it := 0; it < 300; it++ {
		rnd := rand.New(rand.NewSource(int64(it)))
		c, s := verifC27Session()
		type sent struct {
			h *rtp.Header
			p []byte
		}
		want := map[uint32][]sent{}
		var order []uint32
		n := 1 + rnd.Intn(40)
		streams := map[uint32]ReadStream{}
		var got []uint32
		done := make(chan error, 1)
		go func() {
			for {
				r, ssrc, err := s.AcceptStream()
				if err != nil {
					done <- err
					return
				}
				if streams[ssrc] != nil {
					done <- errors.New("a source has two streams")
					return
				}
				streams[ssrc] = r
				got = append(got, ssrc)
			}
		}()
		for i := 0; i < n; i++ {
			ssrc := uint32(rnd.Intn(5))
			if rnd.Intn(2) == 0 {
				ssrc |= 0xffff0000
			}
			size := []int{0, 1, 20, 160, 1000}[rnd.Intn(5)]
			buf, h, p := verifC27Packet(rnd, ssrc, uint16(i), size)
			switch rnd.Intn(6) {
			case 0: // too large
				buf = append(buf, make([]byte, MTUSize+1-len(buf)+rnd.Intn(3))...)
			case 1: // cut in the header
				buf = buf[:rnd.Intn(12)]
			case 2: // exactly the limit
				if len(want[ssrc]) < 10 {
					fill := make([]byte, MTUSize-len(buf))
					rnd.Read(fill)
					buf, p = append(buf, fill...), append(p, fill...)
				}
				fallthrough
			default:
				if new(rtp.Packet).Unmarshal(buf) != nil {
					break // an extension without a payload behind it does not parse
				}
				if len(want[ssrc]) >= 10 {
					continue // the queue of a stream is limited
				}
				if want[ssrc] == nil {
					order = append(order, ssrc)
				}
				want[ssrc] = append(want[ssrc], sent{h, p})
			}
			c.in <- buf
		}
		c.in <- nil // the last datagram has been handed over once this one is taken
		c.in <- nil
		// the queues have to be read before closing
		check := func() {
			if len(got) != len(order) {
				t.Fatalf("FAILING-INPUT C27: seed %d: %d streams for %d sources", it, len(got), len(order))
			}
			for i, ssrc := range order {
				if got[i] != ssrc {
					t.Fatalf("FAILING-INPUT C27: seed %d: stream %d is of source %x, not %x", it, i, got[i], ssrc)
				}
				for j, e := range want[ssrc] {
					type res struct {
						h   rtp.Header
						p   []byte
						err error
					}
					ch := make(chan res, 1)
					go func() {
						var r res
						p := make([]byte, MTUSize)
						var n int
						n, r.err = streams[ssrc].ReadRTP(&r.h, p)
						r.p = p[:n]
						ch <- r
					}()
					select {
					case r := <-ch:
						hb, err := r.h.Marshal()
						eb, _ := e.h.Marshal()
						if r.err != nil || err != nil || !bytes.Equal(hb, eb) || !bytes.Equal(r.p, e.p) {
							t.Fatalf("FAILING-INPUT C27: seed %d: packet %d of source %x: err %v, header intact %v, payload intact %v", it, j, ssrc, r.err, bytes.Equal(hb, eb), bytes.Equal(r.p, e.p))
						}
					case <-time.After(3 * time.Second):
						t.Fatalf("FAILING-INPUT C27: seed %d: packet %d of source %x is missing", it, j, ssrc)
					}
				}
			}
		}
		check()
		s.Close()
		if err := <-done; err != net.ErrClosed {
			t.Fatalf("FAILING-INPUT C27: seed %d: accepting ends with %v", it, err)
		}
	}
}

// A reader that runs while packets arrive: header and payload of a packet belong together and packets are in order.
func TestVerifC27Reader(t *testing.T) {
	for it := 0; it < 300; it++ {
		c, s := verifC27Session()
		const count = 60
		go func() {
			for i := 0; i < count; i++ {
				h := rtp.Header{Version: 2, SequenceNumber: uint16(i), SSRC: 1}
				buf, _ := h.Marshal()
				buf = binary.BigEndian.AppendUint32(buf, uint32(i))
				select {
				case c.in <- buf:
				case <-c.closed:
					return
				}
			}
			time.Sleep(time.Millisecond)
			s.Close()
		}()
		r, _, err := s.AcceptStream()
		if err != nil {
			t.Fatal(err)
		}
		go func() {
			for {
				if _, _, err := s.AcceptStream(); err != nil {
					return
				}
			}
		}()
		last := -1
		for {
			h, p := new(rtp.Header), make([]byte, 100)
			n, err := r.ReadRTP(h, p)
			if err == io.EOF {
				break
			}
			if err != nil {
				t.Fatal(err)
			}
			if n != 4 || int(binary.BigEndian.Uint32(p)) != int(h.SequenceNumber) {
				t.Fatalf("FAILING-INPUT C27: run %d: after packet %d a read returns header %d with payload % x", it, last, h.SequenceNumber, p[:n])
			}
			if int(h.SequenceNumber) <= last {
				t.Fatalf("FAILING-INPUT C27: run %d: packet %d after packet %d", it, h.SequenceNumber, last)
			}
			last = int(h.SequenceNumber)
		}
	}
}
