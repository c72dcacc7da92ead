// overlay: dtmf
package dtmf

import (
	"context"
	"errors"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
	"testing/synctest"
	"time"

	"github.com/livekit/media-sdk"
	"github.com/livekit/media-sdk/rtp"
)

var vC13err = errors.New("write failed")

type vC13pkt struct {
	at   time.Duration
	ts   uint32
	mark bool
	pay  string
}

type vC13rtp struct {
	t0   time.Time
	got  []vC13pkt
	fail int // index of the packet that fails
}

func (w *vC13rtp) String() string { return "w" }
func (w *vC13rtp) WriteRTP(h *rtp.Header, p []byte) (int, error) {
	w.got = append(w.got, vC13pkt{time.Since(w.t0), h.Timestamp, h.Marker, string(p)})
	if len(w.got)-1 == w.fail {
		return 0, vC13err
	}
	return len(p), nil
}

type vC13audio struct {
	t0    time.Time
	rate  int
	at    []time.Duration
	n     []int
	sound []bool
	fail  int
}

func (w *vC13audio) String() string  { return "w" }
func (w *vC13audio) SampleRate() int { return w.rate }
func (w *vC13audio) WriteSample(s media.PCM16Sample) error {
	w.at = append(w.at, time.Since(w.t0))
	w.n = append(w.n, len(s))
	loud := false
	for _, v := range s {
		loud = loud || v != 0
	}
	w.sound = append(w.sound, loud)
	if len(w.at)-1 == w.fail {
		return vC13err
	}
	return nil
}

// TestVerifC13 plays digit strings in a time bubble and compares what is sent with the specification.
func TestVerifC13(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	const all = "0123456789*#abcd"
	for it := 0; it < 1500; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		digits := ""
		for i, n := 0, r.Intn(4); i < n; i++ {
			digits += string((all + "wwxA")[r.Intn(20)])
		}
		useA, useE := r.Intn(4) > 0, r.Intn(4) > 0
		rate := []int{8000, 16000, 24000, 48000}[r.Intn(4)]
		failA, failE, cancel := -1, -1, -1
		switch r.Intn(5) {
		case 0:
			failA = r.Intn(60)
		case 1:
			failE = r.Intn(40)
		case 2:
			cancel = r.Intn(60)
		}
		start := uint32(r.Intn(1 << 30))
		synctest.Test(t, func(t *testing.T) {
			bad := func(f string, a ...any) {
				t.Helper()
				t.Logf(f, a...)
				t.Fatalf("FAILING-INPUT C13: digits %q audio %v (%d Hz, fails at %d) events %v (fails at %d) cancelled in tick %d, start %d", digits, useA, rate, failA, useE, failE, cancel, start)
			}
			t0 := time.Now()
			rw := &vC13rtp{t0: t0, fail: failE}
			aw := &vC13audio{t0: t0, rate: rate, fail: failA}
			ctx, stop := context.WithCancel(context.Background())
			defer stop()
			if cancel >= 0 {
				time.AfterFunc(time.Duration(cancel)*20*time.Millisecond+10*time.Millisecond, stop)
			}
			var st *rtp.Stream
			var au media.Writer[media.PCM16Sample]
			if useE {
				st = rtp.NewSeqWriter(rw).NewStream(101, SampleRate)
			}
			if useA {
				au = aw
			}
			err := Write(ctx, au, st, start, digits)
			// what should have happened
			var wa []bool
			var we []vC13pkt
			var werr error
			tick := 0
			ts := start
			step := func(loud bool, pk []vC13pkt) bool {
				tick++
				if cancel >= 0 && tick > cancel {
					werr = context.Canceled
					return false
				}
				if useA {
					wa = append(wa, loud)
					if len(wa)-1 == failA {
						werr = vC13err
						return false
					}
				}
				if useE {
					for _, p := range pk {
						p.at = time.Duration(tick) * 20 * time.Millisecond
						we = append(we, p)
						if len(we)-1 == failE {
							werr = vC13err
							return false
						}
					}
				}
				return true
			}
		play:
			for _, d := range []byte(digits) {
				if d == 'w' {
					ts += 4000
					for f := 0; f < 25; f++ {
						if !step(false, nil) {
							break play
						}
					}
					continue
				}
				c := strings.IndexByte(all, d)
				for f := 1; f <= 13; f++ {
					var pk []vC13pkt
					if c >= 0 {
						dur := 160 * f
						end := byte(0)
						if f == 13 {
							end = 128
						}
						p := vC13pkt{ts: ts, mark: f == 1, pay: string([]byte{byte(c), 10 | end, byte(dur >> 8), byte(dur)})}
						pk = []vC13pkt{p}
						if f == 13 {
							pk = []vC13pkt{p, p, p}
						}
					}
					if !step(c >= 0, pk) {
						break play
					}
				}
				if c >= 0 {
					ts += 2000
				}
				ts += 2000
				for f := 0; f < 13; f++ {
					if !step(false, nil) {
						break play
					}
				}
			}
			if werr == nil {
				tick++
				if cancel >= 0 && tick > cancel {
					werr = context.Canceled
				}
			}
			if !errors.Is(err, werr) || werr == nil && err != nil {
				bad("returned %v, want %v", err, werr)
			}
			if len(aw.at) != len(wa) {
				bad("%d audio frames, want %d", len(aw.at), len(wa))
			}
			for i := range wa {
				if aw.n[i] != rate/50 || aw.sound[i] != wa[i] || aw.at[i] != time.Duration(i+1)*20*time.Millisecond {
					bad("audio frame %d: %d samples, sound %v, at %v; want %d %v", i, aw.n[i], aw.sound[i], aw.at[i], rate/50, wa[i])
				}
			}
			if len(rw.got) != len(we) {
				bad("%d event packets, want %d", len(rw.got), len(we))
			}
			for i := range we {
				if rw.got[i] != we[i] {
					bad("event packet %d: %v, want %v", i, rw.got[i], we[i])
				}
			}
		})
	}
}
