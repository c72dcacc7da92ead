// overlay: rtp
package rtp

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"testing/synctest"
	"time"
)

type vC28h struct {
	hdr    []Header
	pay    [][]byte
	fail   map[uint16]bool
	raised []error
	n      int
}

func (w *vC28h) String() string { return "h" }
func (w *vC28h) Close()         {}
func (w *vC28h) HandleRTP(h *Header, p []byte) error {
	w.hdr = append(w.hdr, *h)
	w.pay = append(w.pay, append([]byte{}, p...))
	if w.fail[h.SequenceNumber] {
		w.n++
		e := fmt.Errorf("failure %d", w.n)
		w.raised = append(w.raised, e)
		return e
	}
	return nil
}

// TestVerifC28 sends packets, partly out of order, through the jitter-buffered handler while the wrapped handler fails at random.
func TestVerifC28(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for it := 0; it < 2000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		synctest.Test(t, func(t *testing.T) {
			w := &vC28h{fail: map[uint16]bool{}}
			h := HandleJitter(w)
			defer h.Close()
			sn := uint16(r.Intn(65536))
			sent := map[uint16][]byte{}
			hdrs := map[uint16]Header{}
			returned := map[error]bool{}
			hist := ""
			bad := func(f string, a ...any) {
				t.Helper()
				t.Fatalf("FAILING-INPUT C28: packets (fails?) %s: %s", hist, fmt.Sprintf(f, a...))
			}
			order := []int{}
			for i := 0; i < 12; i++ {
				order = append(order, i)
			}
			for i := 2; i < 11; i++ {
				if r.Intn(3) == 0 {
					order[i], order[i+1] = order[i+1], order[i]
				}
			}
			seen := 0
			for _, o := range order {
				hd := Header{Version: 2, SequenceNumber: sn + uint16(o), Timestamp: uint32(o) * 160, PayloadType: uint8(r.Intn(128)), Marker: r.Intn(2) == 0, SSRC: r.Uint32()}
				p := make([]byte, 1+r.Intn(5))
				r.Read(p)
				sent[hd.SequenceNumber], hdrs[hd.SequenceNumber] = p, hd
				w.fail[hd.SequenceNumber] = r.Intn(3) == 0
				hist += fmt.Sprintf("%d:%v ", o, w.fail[hd.SequenceNumber])
				hc := hd
				before := len(w.raised)
				err := h.HandleRTP(&hc, append([]byte{}, p...))
				if err != nil {
					known := false
					for _, e := range w.raised {
						known = known || errors.Is(err, e)
					}
					if !known || returned[err] {
						bad("returned %v (again? %v), the handler failed with %v", err, returned[err], w.raised)
					}
					returned[err] = true
				} else if len(w.raised) > before {
					bad("the handler failed with %v, nothing returned", w.raised[before:])
				}
				for ; seen < len(w.hdr); seen++ {
					g := w.hdr[seen]
					if want := hdrs[g.SequenceNumber]; fmt.Sprint(want) != fmt.Sprint(g) || !bytes.Equal(sent[g.SequenceNumber], w.pay[seen]) {
						bad("handed over %v %v, want %v %v", g, w.pay[seen], want, sent[g.SequenceNumber])
					}
					if seen > 0 && int16(g.SequenceNumber-w.hdr[seen-1].SequenceNumber) <= 0 {
						bad("packet %d after %d", g.SequenceNumber-sn, w.hdr[seen-1].SequenceNumber-sn)
					}
				}
			}
			time.Sleep(time.Second)
			h.HandleRTP(&Header{Version: 2, SequenceNumber: sn + 12, Timestamp: 12 * 160}, []byte{1})
			if len(w.hdr) != 13 {
				bad("%d packets handed over, want 13", len(w.hdr))
			}
		})
	}
}
