// overlay: g711
package g711

import (
	"bytes"
	"math/rand"
	"os"
	"strconv"
	"testing"

	"github.com/livekit/media-sdk"
)

// the linear values of G.711 (Table 1/2), 16-bit scale
func vC14alaw(c int) int {
	c ^= 0x55
	m := c&15*2 + 1
	s := c >> 4 & 7
	v := m << 3
	if s > 0 {
		v = (m + 32) << (s + 2)
	}
	if c&0x80 == 0 {
		return -v
	}
	return v
}

func vC14ulaw(c int) int {
	c = ^c & 255
	v := (c&15<<3+0x84)<<(c>>4&7) - 0x84
	if c&0x80 != 0 {
		return -v
	}
	return v
}

// the code the reference quantiser picks
func vC14enc(v int, lin func(int) int, mask int) byte {
	j := (v + 32768) >> 2
	neg := j < 8192
	d := j - 8192
	if neg {
		d = 8192 - j
	}
	if j == 0 {
		d = 8191
	}
	i := 127
	for k := 0; k < 127; k++ {
		if d < (lin(k^mask)+lin((k+1)^mask)+4)>>3 {
			i = k
			break
		}
	}
	if neg {
		return byte(i ^ mask ^ 0x80)
	}
	return byte(i ^ mask)
}

type vC14pcm struct{ got []media.PCM16Sample }

func (w *vC14pcm) String() string  { return "w" }
func (w *vC14pcm) SampleRate() int { return 8000 }
func (w *vC14pcm) Close() error    { return nil }
func (w *vC14pcm) WriteSample(s media.PCM16Sample) error {
	w.got = append(w.got, append(media.PCM16Sample{}, s...))
	return nil
}

type vC14raw[T ~[]byte] struct{ got [][]byte }

func (w *vC14raw[T]) String() string  { return "w" }
func (w *vC14raw[T]) SampleRate() int { return 8000 }
func (w *vC14raw[T]) Close() error    { return nil }
func (w *vC14raw[T]) WriteSample(s T) error {
	w.got = append(w.got, append([]byte{}, s...))
	return nil
}

func vC14eq(a, b media.PCM16Sample) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// TestVerifC14 compares the codecs with the reference tables for every sample and code, and the frame paths for random frames.
func TestVerifC14(t *testing.T) {
	for c := 0; c < 256; c++ {
		if a, w := (ALawSample{byte(c)}).Decode(), vC14alaw(c); len(a) != 1 || int(a[0]) != w {
			t.Fatalf("FAILING-INPUT C14: A-law code %d decodes to %v, want %d", c, a, w)
		}
		if a, w := (ULawSample{byte(c)}).Decode(), vC14ulaw(c); len(a) != 1 || int(a[0]) != w {
			t.Fatalf("FAILING-INPUT C14: mu-law code %d decodes to %v, want %d", c, a, w)
		}
	}
	var ea, eu [65536]byte
	for v := -32768; v <= 32767; v++ {
		var a ALawSample
		a.Encode(media.PCM16Sample{int16(v)})
		ea[v+32768] = vC14enc(v, vC14alaw, 0xd5)
		if len(a) != 1 || a[0] != ea[v+32768] {
			t.Fatalf("FAILING-INPUT C14: A-law of sample %d is %v, want %d", v, a, ea[v+32768])
		}
		var u ULawSample
		u.Encode(media.PCM16Sample{int16(v)})
		eu[v+32768] = vC14enc(v, vC14ulaw, 0xff)
		if len(u) != 1 || u[0] != eu[v+32768] {
			t.Fatalf("FAILING-INPUT C14: mu-law of sample %d is %v, want %d", v, u, eu[v+32768])
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	for it := 0; it < 3000; it++ {
		pa, pu := &vC14pcm{}, &vC14pcm{}
		ra, ru := &vC14raw[ALawSample]{}, &vC14raw[ULawSample]{}
		da, du := DecodeALaw(pa), DecodeULaw(pu)
		xa, xu := EncodeALaw(ra), EncodeULaw(ru)
		var sizes []int
		for f := 0; f < 5; f++ {
			n := r.Intn(9)
			sizes = append(sizes, n)
			src := make([]byte, n)
			r.Read(src)
			pcm := make(media.PCM16Sample, n)
			wa, wu := make(media.PCM16Sample, n), make(media.PCM16Sample, n)
			ba, bu := make([]byte, n), make([]byte, n)
			for i := range src {
				pcm[i] = int16(r.Intn(65536))
				wa[i], wu[i] = int16(vC14alaw(int(src[i]))), int16(vC14ulaw(int(src[i])))
				ba[i], bu[i] = ea[int(pcm[i])+32768], eu[int(pcm[i])+32768]
			}
			e1, e2 := da.WriteSample(append(ALawSample{}, src...)), du.WriteSample(append(ULawSample{}, src...))
			e3, e4 := xa.WriteSample(append(media.PCM16Sample{}, pcm...)), xu.WriteSample(append(media.PCM16Sample{}, pcm...))
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil || len(pa.got) != f+1 || len(pu.got) != f+1 || len(ra.got) != f+1 || len(ru.got) != f+1 ||
				!vC14eq(pa.got[f], wa) || !vC14eq(pu.got[f], wu) || !bytes.Equal(ra.got[f], ba) || !bytes.Equal(ru.got[f], bu) {
				t.Fatalf("FAILING-INPUT C14: frames of sizes %v, codes %v, samples %v: errors %v %v %v %v, decoded %v %v, encoded %v %v, want %v %v %v %v",
					sizes, src, pcm, e1, e2, e3, e4, pa.got, pu.got, ra.got, ru.got, wa, wu, ba, bu)
			}
		}
	}
}
