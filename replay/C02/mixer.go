// overlay: mixer
package mixer

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	msdk "github.com/livekit/media-sdk"
)

type vC02w struct{ got []msdk.PCM16Sample }

func (w *vC02w) String() string  { return "w" }
func (w *vC02w) SampleRate() int { return 8000 }
func (w *vC02w) WriteSample(s msdk.PCM16Sample) error {
	w.got = append(w.got, append(msdk.PCM16Sample{}, s...))
	return nil
}

// TestVerifC02 mixes random inputs and compares every frame with the clamped sum of what the inputs hold.
func TestVerifC02(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for it := 0; it < 5000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		size := 1 + r.Intn(5)
		frames := 1 + r.Intn(6)
		w := &vC02w{}
		opts := []MixerOptions{WithInputBufferFrames(frames)}
		queued := r.Intn(3) == 0
		if queued {
			opts = append(opts, WithOutputChannelSize(64))
		}
		m := newMixer(w, size, opts...)
		type model struct {
			inp  *Input
			q    []int16
			wait bool
		}
		var ins []*model
		hist := fmt.Sprintf("frame size %d, %d frames buffered, queued %v:", size, frames, queued)
		bad := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("FAILING-INPUT C02: %s: %s", hist, fmt.Sprintf(f, a...))
		}
		mixes := 0
		for op := 0; op < 40; op++ {
			switch k := r.Intn(8); {
			case k == 0 && len(ins) < 5:
				hist += " add"
				ins = append(ins, &model{inp: m.NewInput(), wait: true})
			case k == 1 && len(ins) > 0 && r.Intn(3) == 0:
				i := r.Intn(len(ins))
				hist += fmt.Sprintf(" remove(%d)", i)
				m.RemoveInput(ins[i].inp)
				ins = append(ins[:i], ins[i+1:]...)
			case k < 5 && len(ins) > 0:
				i := r.Intn(len(ins))
				s := make(msdk.PCM16Sample, r.Intn(2*size+2))
				for j := range s {
					s[j] = []int16{-32768, 32767, 1, -1, int16(r.Intn(65536)), 20000}[r.Intn(6)]
				}
				hist += fmt.Sprintf(" write(%d, %v)", i, s)
				ins[i].inp.WriteSample(append(msdk.PCM16Sample{}, s...))
				q := append(ins[i].q, s...)
				if n := size * frames; len(q) > n {
					q = q[len(q)-n:]
				}
				ins[i].q = q
			default:
				hist += " mix"
				want := make([]int, size)
				for _, in := range ins {
					if in.wait {
						if len(in.q) < (frames/2+1)*size {
							continue
						}
						in.wait = false
					}
					n := min(size, len(in.q))
					for j := 0; j < n; j++ {
						want[j] += int(in.q[j])
					}
					in.q = in.q[n:]
					in.wait = n == 0
				}
				m.mixOnce()
				mixes++
				var got msdk.PCM16Sample
				if queued {
					select {
					case got = <-m.outchan:
					default:
						bad("no frame")
					}
				} else {
					if len(w.got) != mixes {
						bad("%d frames after %d mixes", len(w.got), mixes)
					}
					got = w.got[mixes-1]
				}
				if len(got) != size {
					bad("frame of %d samples", len(got))
				}
				for j, v := range want {
					if v = max(-32767, min(32767, v)); int(got[j]) != v {
						bad("frame %v, want sums %v", got, want)
					}
				}
			}
		}
	}
}
