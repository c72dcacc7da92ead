// overlay: .
package media

import (
	"errors"
	"math"
	"testing"
)

type verifC22Dst struct {
	rate   int
	frames []PCM16Sample
	fail   func(i int) bool
	closed int
	after  bool
}

var errVerifC22 = errors.New("verif")

func (d *verifC22Dst) String() string  { return "verif" }
func (d *verifC22Dst) SampleRate() int { return d.rate }
func (d *verifC22Dst) Close() error    { d.closed++; return nil }
func (d *verifC22Dst) WriteSample(s PCM16Sample) error {
	if d.closed > 0 {
		d.after = true
	}
	i := len(d.frames)
	d.frames = append(d.frames, append(PCM16Sample(nil), s...))
	if d.fail != nil && d.fail(i) {
		return errVerifC22
	}
	return nil
}

// The tone comes out without a gap, a repetition or a missing end, in whole frames, whatever the destination reports.
func TestVerifC22Tone(t *testing.T) {
	same := &verifC22Dst{rate: 16000}
	if w := ResampleWriter(same, 16000); w != PCM16Writer(same) {
		t.Fatalf("FAILING-INPUT C22: equal rates are not bypassed")
	}
	for _, rt := range [][2]int{{8000, 16000}, {16000, 8000}, {48000, 16000}, {48000, 8000}, {8000, 48000}, {16000, 48000}, {44100, 48000}, {48000, 44100}} {
		for _, per := range []int{1, 50, 100, 20} {
			for mode := 0; mode < 4; mode++ {
				d := &verifC22Dst{rate: rt[1]}
				switch mode {
				case 1:
					d.fail = func(i int) bool { return true }
				case 2:
					d.fail = func(i int) bool { return i%3 == 1 }
				case 3:
					d.fail = func(i int) bool { return i == 2 }
				}
				w := ResampleWriter(d, rt[0])
				n := rt[0] / per
				tot := 0
				want := 0 // frame size
				max := 0
				for i := 0; i < 20; i++ {
					s := make(PCM16Sample, n)
					for j := range s {
						s[j] = int16(20000 * math.Sin(2*math.Pi*float64(tot+j)/float64(rt[0])*10))
					}
					tot += n
					before := len(d.frames)
					err := w.WriteSample(s)
					bad := false
					for f := before; f < len(d.frames); f++ {
						bad = bad || d.fail != nil && d.fail(f)
						if want == 0 {
							want = len(d.frames[f])
						}
						if len(d.frames[f]) != want {
							t.Fatalf("FAILING-INPUT C22: %d->%d in writes of %d: frame %d has %d samples, the first one %d", rt[0], rt[1], n, f, len(d.frames[f]), want)
						}
					}
					if bad != (err != nil) {
						t.Fatalf("FAILING-INPUT C22: %d->%d in writes of %d, destination errors %d: write %d returned %v", rt[0], rt[1], n, mode, i, err)
					}
					max = tot * rt[1] / rt[0]
				}
				if err := w.Close(); err != nil {
					t.Fatalf("FAILING-INPUT C22: close: %v", err)
				}
				if d.closed != 1 || d.after {
					t.Fatalf("FAILING-INPUT C22: %d->%d: destination closed %d times, written after that: %v", rt[0], rt[1], d.closed, d.after)
				}
				var out PCM16Sample
				for _, f := range d.frames {
					out = append(out, f...)
				}
				if len(out) < max-2 || len(out) > max+2 {
					t.Fatalf("FAILING-INPUT C22: %d->%d in writes of %d, destination errors %d: %d samples forwarded for %d, want %d", rt[0], rt[1], n, mode, len(out), tot, max)
				}
				for k := 200; k < len(out)-200; k++ {
					if e := float64(out[k]) - 20000*math.Sin(2*math.Pi*float64(k)/float64(rt[1])*10); math.Abs(e) > 10 {
						t.Fatalf("FAILING-INPUT C22: %d->%d in writes of %d, destination errors %d: sample %d is off by %g", rt[0], rt[1], n, mode, k, e)
					}
				}
				if err := w.WriteSample(make(PCM16Sample, n)); err == nil || d.after {
					t.Fatalf("FAILING-INPUT C22: write after close: %v, forwarded: %v", err, d.after)
				}
			}
		}
	}
}

// Shorter writes do not change the size of the frames that are handed out.
func TestVerifC22Short(t *testing.T) {
	for _, rt := range [][2]int{{8000, 16000}, {48000, 16000}, {16000, 48000}} {
		d := &verifC22Dst{rate: rt[1]}
		w := ResampleWriter(d, rt[0])
		for i := 0; i < 60; i++ {
			n := rt[0] / 50
			if i%5 == 4 {
				n /= 2
			}
			if err := w.WriteSample(make(PCM16Sample, n)); err != nil {
				t.Fatal(err)
			}
		}
		for i, f := range d.frames {
			if len(f) != rt[1]/50 {
				t.Fatalf("FAILING-INPUT C22: %d->%d, 20 ms writes, every fifth one 10 ms: frame %d has %d samples", rt[0], rt[1], i, len(f))
			}
		}
	}
}
