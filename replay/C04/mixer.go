// overlay: mixer
package mixer

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	msdk "github.com/livekit/media-sdk"
)

type vC04w struct{ n int }

func (w *vC04w) String() string                      { return "w" }
func (w *vC04w) SampleRate() int                     { return 8000 }
func (w *vC04w) WriteSample(s msdk.PCM16Sample) error { w.n++; return nil }

// TestVerifC04 wakes a mixer up at random times of a time bubble.
func TestVerifC04(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for it := 0; it < 5000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		synctest.Test(t, func(t *testing.T) {
			w := &vC04w{}
			frames := 1 + r.Intn(6)
			m := newMixer(w, 4, WithInputBufferFrames(frames))
			p := time.Duration(1 + r.Intn(50000000))
			if r.Intn(10) == 0 {
				p = time.Duration(1 + r.Intn(6))
			}
			m.tickerDur = p
			hist := fmt.Sprintf("period %v, %d frames buffered, wake-ups after", p, frames)
			var ref time.Time
			for op := 0; op < 20; op++ {
				var d time.Duration
				switch r.Intn(6) {
				case 0:
					d = time.Duration(r.Int63n(int64(p)*int64(frames+3) + 1))
				case 1:
					d = p*3/4 + time.Duration(r.Intn(3)-1)
				case 2:
					d = p * time.Duration(r.Intn(3))
				case 3:
					d = p + time.Duration(r.Int63n(int64(p)/2+1)) - p/4
				default:
					d = p
				}
				d = max(d, 0)
				time.Sleep(d)
				hist += fmt.Sprintf(" %d", d)
				now := time.Now()
				want := 0
				switch {
				case op == 0:
					want, ref = 1, now
				case now.Before(ref):
				default:
					want = int((now.Sub(ref) + p/4) / p)
					ref = ref.Add(time.Duration(want) * p)
					if want > frames {
						want, ref = frames, now
					}
				}
				before := w.n
				m.mixUpdate()
				if w.n-before != want || !m.lastMixEndTs.Equal(ref) {
					t.Fatalf("FAILING-INPUT C04: %s: %d mixes and a reference time %v from now, want %d and %v", hist, w.n-before, m.lastMixEndTs.Sub(now), want, ref.Sub(now))
				}
			}
		})
	}
}
