// overlay: .
package media

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

type vC16w struct {
	frames [][]int16
	fail   map[int]error
	calls  int
	closed int
}

func (w *vC16w) String() string  { return "w" }
func (w *vC16w) SampleRate() int { return 8000 }
func (w *vC16w) Close() error    { w.closed++; return nil }
func (w *vC16w) WriteSample(s PCM16Sample) error {
	w.frames = append(w.frames, append([]int16{}, s...))
	w.calls++
	return w.fail[w.calls-1]
}

// TestVerifC16 feeds a full-frame writer and compares what comes out with the concatenation of what went in.
func TestVerifC16(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for it := 0; it < 20000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		n := 1 + r.Intn(5)
		dst := &vC16w{fail: map[int]error{}}
		for i := 0; i < 12; i++ {
			if r.Intn(4) == 0 {
				dst.fail[i] = fmt.Errorf("e%d", i)
			}
		}
		w := FullFrames[PCM16Sample](dst, n)
		hist := fmt.Sprintf("FullFrames(%d), failing calls %v", n, dst.fail)
		bad := func(f string, a ...any) { t.Fatalf("FAILING-INPUT C16: %s: %s", hist, fmt.Sprintf(f, a...)) }
		var all []int16
		out := func() (l []int16) {
			for _, f := range dst.frames {
				l = append(l, f...)
			}
			return
		}
		check := func() {
			o := out()
			if len(o) > len(all) {
				bad("%d samples out of %d", len(o), len(all))
			}
			for i := range o {
				if o[i] != all[i] {
					bad("sample %d is %d, want %d", i, o[i], all[i])
				}
			}
		}
		for op := 0; op < 8; op++ {
			p := make(PCM16Sample, r.Intn(3*n+2))
			for i := range p {
				p[i] = int16(len(all) + i + 1)
			}
			hist += fmt.Sprintf(" Write(%d)", len(p))
			all = append(all, p...)
			before := dst.calls
			err := w.WriteSample(p)
			clear(p)
			check()
			for i, f := range dst.frames {
				if len(f) != n {
					bad("frame %d has %d samples", i, len(f))
				}
			}
			var want error
			for i := before; i < dst.calls; i++ {
				if want != nil {
					bad("wrote on after a failure")
				}
				want = dst.fail[i]
			}
			if !errors.Is(err, want) {
				bad("returned %v, want %v", err, want)
			}
			if err == nil && len(all)-len(out()) >= n {
				bad("%d samples kept", len(all)-len(out()))
			}
		}
		if len(all)-len(out()) < n {
			hist += " Close"
			rest, before := len(all)-len(out()), dst.calls
			err := w.Close()
			check()
			if len(out()) != len(all) || dst.calls != before+min(1, rest) || dst.closed != 1 {
				bad("%d of %d samples, %d calls, closed %d", len(out()), len(all), dst.calls-before, dst.closed)
			}
			if rest > 0 && !errors.Is(err, dst.fail[before]) {
				bad("close returned %v", err)
			}
		}
	}
}
