// overlay: g722
package g722

import (
	"errors"
	"math/rand"
	"testing"

	lib "github.com/gotranspile/g722"

	"github.com/livekit/media-sdk"
)

type verifC23Dst[T any] struct {
	rate int
	got  []T
	err  error
}

func (d *verifC23Dst[T]) String() string          { return "verif" }
func (d *verifC23Dst[T]) SampleRate() int         { return d.rate }
func (d *verifC23Dst[T]) Close() error            { return d.err }
func (d *verifC23Dst[T]) WriteSample(s T) error   { d.got = append(d.got, s); return d.err }

func TestVerifC23G722(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for _, rate := range []int{8000, 16000} {
		var f lib.Flags
		if rate == 8000 {
			f = lib.FlagSampleRate8000
		}
		enc, dec := lib.NewEncoder(lib.Rate64000, f), lib.NewDecoder(lib.Rate64000, f)
		ed, dd := &verifC23Dst[Sample]{rate: rate}, &verifC23Dst[media.PCM16Sample]{rate: rate}
		e, d := Encode(ed), Decode(dd)
		for i := 0; i < 300; i++ {
			n := 1 + rnd.Intn(400)
			in := make(media.PCM16Sample, n)
			for j := range in {
				in[j] = int16(rnd.Intn(65536) - 32768)
			}
			src := in
			if rate == 16000 && n%2 != 0 {
				src = append(in[:n:n], in[n-1])
			}
			want := make([]byte, n+1)
			want = want[:enc.Encode(want, src)]
			var fail error
			if i%7 == 3 {
				fail = errors.New("verif")
			}
			ed.err, dd.err = fail, fail
			ed.got, dd.got = nil, nil
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatalf("FAILING-INPUT C23: G.722 encoding %d samples at %d Hz panics: %v", n, rate, r)
					}
				}()
				if err := e.WriteSample(in); err != fail {
					t.Fatalf("FAILING-INPUT C23: G.722 encode reports %v for destination error %v", err, fail)
				}
			}()
			if len(ed.got) != 1 || string(ed.got[0]) != string(want) {
				t.Fatalf("FAILING-INPUT C23: G.722 encoding %d samples at %d Hz: %d frames forwarded, not what the codec produced", n, rate, len(ed.got))
			}
			pcm := make([]int16, 2*len(want))
			pcm = pcm[:dec.Decode(pcm, want)]
			func() {
				defer func() {
					if r := recover(); r != nil {
						t.Fatalf("FAILING-INPUT C23: G.722 decoding %d bytes at %d Hz panics: %v", len(want), rate, r)
					}
				}()
				if err := d.WriteSample(want); err != fail {
					t.Fatalf("FAILING-INPUT C23: G.722 decode reports %v for destination error %v", err, fail)
				}
			}()
			ok := len(dd.got) == 1 && len(dd.got[0]) == len(pcm)
			for k := 0; ok && k < len(pcm); k++ {
				ok = dd.got[0][k] == pcm[k]
			}
			if !ok {
				t.Fatalf("FAILING-INPUT C23: G.722 decoding %d bytes at %d Hz: %d frames forwarded, not what the codec produced", len(want), rate, len(dd.got))
			}
		}
	}
}
