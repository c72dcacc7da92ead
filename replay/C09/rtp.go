// overlay: rtp
package rtp

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

type vC09w struct{ ts []uint32 }

func (w *vC09w) String() string { return "w" }
func (w *vC09w) WriteRTP(h *Header, p []byte) (int, error) {
	w.ts = append(w.ts, h.Timestamp)
	return len(p), nil
}

// TestVerifC09 compares stream timestamps with the definition.
func TestVerifC09(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for it := 0; it < 20000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		w := &vC09w{}
		s := NewSeqWriter(w)
		hist := ""
		bad := func(f string, a ...any) { t.Fatalf("FAILING-INPUT C09: %s: %s", hist, fmt.Sprintf(f, a...)) }
		type stream struct {
			s      *Stream
			dur    uint32
			ts     uint32
			follow bool
		}
		var max uint32
		cur := func(ts, dur uint32) uint32 {
			if max > ts+25*dur {
				return max
			}
			if max < ts {
				max = ts
			}
			return ts
		}
		var sts []*stream
		for i := 0; i < 3; i++ {
			d := uint32(1 + r.Intn(200))
			st := &stream{dur: d}
			if r.Intn(2) == 0 {
				st.dur, st.s = d, s.NewStreamWithDur(0, d)
			} else {
				st.dur, st.s = 8000/50, s.NewStream(0, 8000)
			}
			sts = append(sts, st)
			hist += fmt.Sprintf(" stream %d: dur %d;", i, st.dur)
		}
		for op := 0; op < 40; op++ {
			k := r.Intn(3)
			st := sts[k]
			n := len(w.ts)
			switch r.Intn(6) {
			case 0, 1, 2:
				inc := r.Intn(2) == 0
				hist += fmt.Sprintf(" write(%d, inc %v)", k, inc)
				if !st.follow {
					st.ts = cur(st.ts, st.dur)
				}
				want := st.ts
				if inc {
					st.s.WritePayload(nil, false)
					st.ts += st.dur
				} else {
					st.s.WritePayloadAtCurrent(nil, false)
				}
				st.follow = !inc
				if len(w.ts) != n+1 || w.ts[n] != want {
					bad("timestamps %v, want %d", w.ts[n:], want)
				}
			case 3:
				d := uint32(r.Intn(30)) * st.dur
				hist += fmt.Sprintf(" delay(%d, %d)", k, d)
				st.s.Delay(d)
				st.ts = cur(st.ts+d, st.dur)
				st.follow = false
			case 4:
				d := r.Intn(40)
				hist += fmt.Sprintf(" delayN(%d, %d)", k, d)
				st.s.DelayN(d)
				st.ts = cur(st.ts+uint32(d)*st.dur, st.dur)
				st.follow = false
			case 5:
				if r.Intn(4) == 0 {
					ts := uint32(r.Intn(20000))
					hist += fmt.Sprintf(" reset(%d, %d)", k, ts)
					st.s.ResetTimestamp(ts)
					st.ts, st.follow = ts, false
				}
			}
			if g := st.s.GetCurrentTimestamp(); g != st.ts {
				bad("stream %d at %d, want %d", k, g, st.ts)
			}
			if g := s.maxTS.Load(); g != max {
				bad("maximum %d, want %d", g, max)
			}
		}
	}
}
