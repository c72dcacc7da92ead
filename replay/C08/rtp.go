// overlay: rtp
package rtp

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

type vC08w struct {
	r    *rand.Rand
	hdr  []Header
	pay  [][]byte
	fail bool
}

func (w *vC08w) String() string { return "w" }
func (w *vC08w) WriteRTP(h *Header, p []byte) (int, error) {
	if w.fail {
		return 0, errors.New("fail")
	}
	w.hdr = append(w.hdr, *h)
	w.pay = append(w.pay, append([]byte{}, p...))
	return len(p), nil
}

// TestVerifC08 writes events and streams through one writer with failures mixed in.
func TestVerifC08(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for it := 0; it < 3000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		w := &vC08w{}
		s := NewSeqWriter(w)
		hist := ""
		bad := func(f string, a ...any) { t.Fatalf("FAILING-INPUT C08: %s: %s", hist, fmt.Sprintf(f, a...)) }
		var sts []*Stream
		var types []byte
		for i := 0; i < 3; i++ {
			types = append(types, byte(r.Intn(128)))
			sts = append(sts, s.NewStream(types[i], 8000))
		}
		if it%50 == 0 { // near the wrap-around
			hist = "65530 events;"
			for i := 0; i < 65530; i++ {
				s.WriteEvent(&Event{})
			}
		}
		for op := 0; op < 20; op++ {
			w.fail = r.Intn(3) == 0
			n := len(w.hdr)
			pay := make([]byte, r.Intn(4))
			r.Read(pay)
			mark := r.Intn(2) == 0
			var err error
			var typ byte
			var ts uint32
			checkTS := false
			switch r.Intn(3) {
			case 0:
				typ, ts, checkTS = byte(r.Intn(256)), r.Uint32(), true
				hist += fmt.Sprintf(" Event(type %d, ts %d, marker %v, fail %v)", typ, ts, mark, w.fail)
				err = s.WriteEvent(&Event{Type: typ, Timestamp: ts, Payload: pay, Marker: mark})
			case 1:
				k := r.Intn(3)
				typ = types[k]
				hist += fmt.Sprintf(" stream %d payload(marker %v, fail %v)", k, mark, w.fail)
				err = sts[k].WritePayload(pay, mark)
			case 2:
				k := r.Intn(3)
				typ = types[k]
				hist += fmt.Sprintf(" stream %d payload at current(marker %v, fail %v)", k, mark, w.fail)
				err = sts[k].WritePayloadAtCurrent(pay, mark)
			}
			if (err != nil) != w.fail {
				bad("error %v", err)
			}
			if w.fail {
				if len(w.hdr) != n {
					bad("sent again")
				}
				continue
			}
			if len(w.hdr) != n+1 {
				bad("%d packets", len(w.hdr)-n)
			}
			h := w.hdr[n]
			if h.PayloadType != typ || h.Marker != mark || checkTS && h.Timestamp != ts || string(w.pay[n]) != string(pay) {
				bad("sent %+v %v", h, w.pay[n])
			}
			if h.Version != 2 || h.SSRC != w.hdr[0].SSRC || len(h.CSRC) != 0 || h.Extension || h.Padding {
				bad("header %+v", h)
			}
			if n > 0 && h.SequenceNumber != w.hdr[n-1].SequenceNumber+1 {
				bad("sequence %d after %d", h.SequenceNumber, w.hdr[n-1].SequenceNumber)
			}
		}
	}
}
