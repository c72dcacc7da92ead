// overlay: mixer
package mixer

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"

	msdk "github.com/livekit/media-sdk"
)

type vC03w struct{ last msdk.PCM16Sample }

func (w *vC03w) String() string  { return "w" }
func (w *vC03w) SampleRate() int { return 8000 }
func (w *vC03w) WriteSample(s msdk.PCM16Sample) error {
	w.last = append(msdk.PCM16Sample{}, s...)
	return nil
}

// TestVerifC03 drives one mixer with up to three inputs against a model of their buffers and counters.
func TestVerifC03(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for it := 0; it < 5000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		size := 1 + r.Intn(5)
		opt := r.Intn(8) - 1
		frames := opt
		if frames <= 0 {
			frames = 5
		}
		w := &vC03w{}
		var st Stats
		m := newMixer(w, size, WithInputBufferFrames(opt), WithStats(&st))
		type model struct {
			inp  *Input
			q    []int16
			wait bool
		}
		var ins []*model
		var samples, writes, lostS, lostF, restarts uint64
		hist := fmt.Sprintf("frame size %d, WithInputBufferFrames(%d):", size, opt)
		bad := func(f string, a ...any) {
			t.Helper()
			t.Fatalf("FAILING-INPUT C03: %s: %s", hist, fmt.Sprintf(f, a...))
		}
		for op := 0; op < 50; op++ {
			switch k := r.Intn(8); {
			case (k == 0 || len(ins) == 0) && len(ins) < 3:
				hist += " add"
				ins = append(ins, &model{inp: m.NewInput(), wait: true})
			case k == 1 && r.Intn(4) == 0:
				i := r.Intn(len(ins))
				hist += fmt.Sprintf(" close(%d)", i)
				ins[i].inp.Close()
				m.RemoveInput(ins[i].inp)
				ins = append(ins[:i], ins[i+1:]...)
			case k < 5:
				i := r.Intn(len(ins))
				s := make(msdk.PCM16Sample, r.Intn(size*(1+r.Intn(frames+1))+2))
				for j := range s {
					s[j] = int16(1 + r.Intn(1000))
				}
				hist += fmt.Sprintf(" write(%d, %v)", i, s)
				if err := ins[i].inp.WriteSample(append(msdk.PCM16Sample{}, s...)); err != nil {
					bad("%v", err)
				}
				writes++
				samples += uint64(len(s))
				q := append(ins[i].q, s...)
				if n := size * frames; len(q) > n {
					lostF++
					lostS += uint64(len(q) - n)
					q = q[len(q)-n:]
				}
				ins[i].q = q
			default:
				hist += " mix"
				want := make([]int, size)
				for _, in := range ins {
					if in.wait {
						if len(in.q) < (frames/2+1)*size {
							continue
						}
						in.wait = false
					}
					n := min(size, len(in.q))
					for j := 0; j < n; j++ {
						want[j] += int(in.q[j])
					}
					in.q = in.q[n:]
					if n == 0 {
						in.wait = true
						restarts++
					}
				}
				m.mixOnce()
				for j, v := range want {
					if int(w.last[j]) != v {
						bad("frame %v, want %v", w.last, want)
					}
				}
			}
			for i, in := range ins {
				if in.inp.buf.Len() != len(in.q) {
					bad("input %d holds %d samples, want %d", i, in.inp.buf.Len(), len(in.q))
				}
			}
			if len(m.inputs) != len(ins) || st.Restarts.Load() != restarts || st.InputFrames.Load() != writes || st.InputSamples.Load() != samples || st.InputSamplesDropped.Load() != lostS || st.InputFramesDropped.Load() != lostF {
				bad("inputs %d restarts %d writes %d samples %d dropped samples %d dropped frames %d, want %d %d %d %d %d %d", len(m.inputs), st.Restarts.Load(), st.InputFrames.Load(), st.InputSamples.Load(), st.InputSamplesDropped.Load(), st.InputFramesDropped.Load(), len(ins), restarts, writes, samples, lostS, lostF)
			}
		}
	}
}
