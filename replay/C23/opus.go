// overlay: opus
package opus

import (
	"errors"
	"math"
	"testing"

	lib "gopkg.in/hraban/opus.v2"

	"github.com/livekit/protocol/logger"

	"github.com/livekit/media-sdk"
)

type verifC23Dst[T any] struct {
	rate int
	got  []T
	err  error
}

func (d *verifC23Dst[T]) String() string        { return "verif" }
func (d *verifC23Dst[T]) SampleRate() int       { return d.rate }
func (d *verifC23Dst[T]) Close() error          { return d.err }
func (d *verifC23Dst[T]) WriteSample(s T) error { d.got = append(d.got, s); return d.err }

func TestVerifC23Opus(t *testing.T) {
	fail := errors.New("verif")
	for _, rate := range []int{8000, 16000, 48000} {
		frame := rate / 50
		tone := func(i, ch, n int) media.PCM16Sample {
			s := make(media.PCM16Sample, n*ch)
			for j := range s {
				s[j] = int16(8000 * math.Sin(float64(i*n+j/ch)/20+float64(j%ch)))
			}
			return s
		}
		// encoder
		for ch := 1; ch <= 2; ch++ {
			ref, err := lib.NewEncoder(rate, ch, lib.AppVoIP)
			if err != nil {
				t.Fatal(err)
			}
			dst := &verifC23Dst[Sample]{rate: rate}
			e, err := Encode(dst, ch, logger.GetLogger())
			if err != nil {
				t.Fatal(err)
			}
			for i := 0; i < 50; i++ {
				in := tone(i, ch, frame)
				buf := make([]byte, rate/50*ch)
				n, err := ref.Encode(in, buf)
				if err != nil {
					t.Fatal(err)
				}
				dst.got, dst.err = nil, nil
				if i%5 == 2 {
					dst.err = fail
				}
				if err := e.WriteSample(in); err != dst.err {
					t.Fatalf("FAILING-INPUT C23: opus encode reports %v for destination error %v", err, dst.err)
				}
				if len(dst.got) != 1 || string(dst.got[0]) != string(buf[:n]) {
					t.Fatalf("FAILING-INPUT C23: opus frame %d (%d Hz, %d channels) is not what the codec produced", i, rate, ch)
				}
			}
		}
		// decoder, switching between mono and stereo packets, with runs of corrupt ones
		for target := 1; target <= 2; target++ {
			enc := map[int]*lib.Encoder{}
			for ch := 1; ch <= 2; ch++ {
				enc[ch], _ = lib.NewEncoder(rate, ch, lib.AppVoIP)
			}
			dst := &verifC23Dst[media.PCM16Sample]{rate: rate}
			d, err := Decode(dst, target, logger.GetLogger())
			if err != nil {
				t.Fatal(err)
			}
			var ref *lib.Decoder
			last, bad := 0, 0
			for i := 0; i < 200; i++ {
				ch := 1 + (i/13)%2
				n := frame
				if i%3 == 1 {
					n = frame / 2
				}
				buf := make([]byte, 4000)
				m, err := enc[ch].Encode(tone(i, ch, n), buf)
				if err != nil {
					t.Fatal(err)
				}
				pkt := buf[:m]
				if (i >= 30 && i < 34) || (i >= 60 && i < 68) || i == 36 {
					pkt = []byte{pkt[0] | 3, 0xff} // code 3 packet without room for its frames
				}
				ch = 1 + int(pkt[0]>>2&1) // the encoder may decide to send mono
				if ref == nil || last != ch {
					ref, _ = lib.NewDecoder(rate, ch)
					last = ch
				}
				pcm := make([]int16, rate/50*ch)
				k, derr := ref.Decode(pkt, pcm)
				dst.got, dst.err = nil, nil
				if i%11 == 5 {
					dst.err = fail
				}
				err = d.WriteSample(pkt)
				if derr != nil {
					var want error
					if !errors.Is(derr, lib.ErrInvalidPacket) || bad >= 5 {
						want = derr
					} else {
						bad++
					}
					if !errors.Is(err, want) || (err == nil) != (want == nil) || len(dst.got) != 0 {
						t.Fatalf("FAILING-INPUT C23: corrupt opus packet %d, %d before it in a row: reported %v, want %v; %d frames forwarded", i, bad, err, want, len(dst.got))
					}
					continue
				}
				bad = 0
				pcm = pcm[:k*ch]
				var want []int16
				switch {
				case ch == target:
					want = pcm
				case ch < target:
					for _, v := range pcm {
						want = append(want, v, v)
					}
				default:
					for j := 0; j+1 < len(pcm); j += 2 {
						want = append(want, int16((int(pcm[j])+int(pcm[j+1]))/2))
					}
				}
				if err != dst.err {
					t.Fatalf("FAILING-INPUT C23: opus decode reports %v for destination error %v", err, dst.err)
				}
				ok := len(dst.got) == 1 && len(dst.got[0]) == len(want)
				for j := 0; ok && j < len(want); j++ {
					ok = dst.got[0][j] == want[j]
				}
				if !ok {
					t.Fatalf("FAILING-INPUT C23: opus packet %d (%d Hz, %d channels, target %d): not what the codec produced in the requested layout (%d frames)", i, rate, ch, target, len(dst.got))
				}
			}
			dst.got = nil
			if err := d.WriteSample(nil); err != nil || len(dst.got) != 0 {
				t.Fatalf("FAILING-INPUT C23: empty opus frame: %v, %d frames forwarded", err, len(dst.got))
			}
		}
	}
}
