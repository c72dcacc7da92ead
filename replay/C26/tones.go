// overlay: tones
package tones

import (
	"context"
	"errors"
	"math"
	"math/rand"
	"os"
	"strconv"
	"testing"
	"testing/synctest"
	"time"

	"github.com/livekit/media-sdk"
)

var vC26err = errors.New("write failed")

type vC26audio struct {
	t0   time.Time
	rate int
	at   []time.Duration
	got  []media.PCM16Sample
	fail int
}

func (w *vC26audio) String() string  { return "w" }
func (w *vC26audio) SampleRate() int { return w.rate }
func (w *vC26audio) WriteSample(s media.PCM16Sample) error {
	w.at = append(w.at, time.Since(w.t0))
	w.got = append(w.got, append(media.PCM16Sample{}, s...))
	if len(w.at)-1 == w.fail {
		return vC26err
	}
	return nil
}

func vC26wave(n int, ts, dur time.Duration, amp int16, freq []Hz) media.PCM16Sample {
	out := make(media.PCM16Sample, n)
	for i := range out {
		if len(freq) == 0 {
			continue
		}
		phi := ts + dur*time.Duration(i)/time.Duration(n)
		sum := 0.0
		for _, hz := range freq {
			sum += math.Sin((phi * time.Duration(hz) * 2).Seconds() * math.Pi)
		}
		out[i] = int16(float64(amp) * sum / float64(len(freq)))
	}
	return out
}

func vC26eq(a, b media.PCM16Sample) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if d := int(a[i]) - int(b[i]); d < -1 || d > 1 { // rounding of the floating-point sum
			return false
		}
	}
	return true
}

// TestVerifC26 plays tone lists in a time bubble and compares the frames with the pattern.
func TestVerifC26(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for it := 0; it < 1500; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		durs := []time.Duration{0, 1, 20, 30, 40, 50, 100, 7}
		var list []Tone
		for i, n := 0, 1+r.Intn(3); i < n; i++ {
			tn := Tone{Dur: durs[r.Intn(8)] * time.Millisecond, Silence: durs[r.Intn(8)] * time.Millisecond}
			if r.Intn(3) == 0 {
				tn.Silence = 0
			}
			for k := r.Intn(3); k > 0; k-- {
				tn.Freq = append(tn.Freq, Hz(300+r.Intn(1000)))
			}
			list = append(list, tn)
		}
		rate := []int{8000, 16000, 48000, 11025}[r.Intn(4)]
		vol := int16(r.Intn(30000))
		fail, cancel := -1, 1+r.Intn(60)
		if r.Intn(3) == 0 {
			fail = r.Intn(60)
		}
		g := make(media.PCM16Sample, r.Intn(200))
		ts, dur := time.Duration(r.Int63n(1e10)), time.Duration(r.Int63n(1e8))
		for i := range g {
			g[i] = 77
		}
		if e := Generate(g, ts, dur, vol, list[0].Freq); e != ts+dur || !vC26eq(g, vC26wave(len(g), ts, dur, vol, list[0].Freq)) {
			t.Fatalf("FAILING-INPUT C26: Generate of %d samples at %v for %v, amplitude %d, tones %v: %v, %v", len(g), ts, dur, vol, list[0].Freq, e, g)
		}
		synctest.Test(t, func(t *testing.T) {
			bad := func(f string, a ...any) {
				t.Helper()
				t.Logf(f, a...)
				t.Fatalf("FAILING-INPUT C26: tones %v at %d Hz, write %d fails, cancelled in tick %d", list, rate, fail, cancel)
			}
			aw := &vC26audio{t0: time.Now(), rate: rate, fail: fail}
			ctx, stop := context.WithCancel(context.Background())
			defer stop()
			time.AfterFunc(time.Duration(cancel)*20*time.Millisecond+10*time.Millisecond, stop)
			err := Play(ctx, aw, vol, list)
			n := cancel
			werr := context.Canceled
			if fail >= 0 && fail < cancel {
				n, werr = fail+1, vC26err
			}
			if !errors.Is(err, werr) {
				bad("returned %v, want %v", err, werr)
			}
			if len(aw.got) != n {
				bad("%d frames, want %d", len(aw.got), n)
			}
			pos, left := 0, list[0].Dur
			for f := 0; f < n; f++ {
				if f > 0 {
					left -= 20 * time.Millisecond
					if left <= 0 {
						pos = (pos + 1) % (2 * len(list))
						if pos%2 == 1 && list[pos/2].Silence == 0 {
							pos = (pos + 1) % (2 * len(list))
						}
						left = list[pos/2].Dur
						if pos%2 == 1 {
							left = list[pos/2].Silence
						}
					}
				}
				var fr []Hz
				if pos%2 == 0 {
					fr = list[pos/2].Freq
				}
				if aw.at[f] != time.Duration(f+1)*20*time.Millisecond || !vC26eq(aw.got[f], vC26wave(rate/50, time.Duration(f)*20*time.Millisecond, 20*time.Millisecond, vol, fr)) {
					bad("frame %d at %v: %v, want tones %v", f, aw.at[f], aw.got[f], fr)
				}
			}
		})
	}
}
