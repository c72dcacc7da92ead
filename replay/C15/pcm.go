// overlay: .
package media

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// TestVerifC15 compares the PCM helpers with their definitions.
func TestVerifC15(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	val := func() int16 {
		switch r.Intn(4) {
		case 0:
			return -32768
		case 1:
			return 32767
		}
		return int16(r.Intn(65536) - 32768)
	}
	mk := func(n int) PCM16Sample {
		p := make(PCM16Sample, n)
		for i := range p {
			p[i] = val()
		}
		return p
	}
	bad := func(f string, a ...any) { t.Fatalf("FAILING-INPUT C15: %s", fmt.Sprintf(f, a...)) }
	try := func(f func()) (p bool) {
		defer func() { p = recover() != nil }()
		f()
		return
	}
	for it := 0; it < 20000; it++ {
		src := mk(r.Intn(9))
		cp := append(PCM16Sample{}, src...)
		dst := mk(r.Intn(20))
		old := append(PCM16Sample{}, dst...)
		p := try(func() { MonoToStereo(dst, src) })
		if p {
			if len(dst) >= 2*len(src) {
				bad("MonoToStereo(len %d, %v) panics", len(dst), src)
			}
			if fmt.Sprint(dst) != fmt.Sprint(old) {
				bad("MonoToStereo(len %d, %v) wrote before panicking", len(dst), src)
			}
		} else {
			if len(dst) < 2*len(src) {
				bad("MonoToStereo(len %d, %v) does not reject", len(dst), src)
			}
			for i := range src {
				if dst[2*i] != src[i] || dst[2*i+1] != src[i] {
					bad("MonoToStereo(%v) = %v", src, dst)
				}
			}
		}
		dst = mk(r.Intn(6))
		old = append(PCM16Sample{}, dst...)
		st := mk(2 * r.Intn(5))
		p = try(func() { StereoToMono(dst, st) })
		if p {
			if len(dst) >= len(st)/2 {
				bad("StereoToMono(len %d, %v) panics", len(dst), st)
			}
			if fmt.Sprint(dst) != fmt.Sprint(old) {
				bad("StereoToMono(len %d, %v) wrote before panicking", len(dst), st)
			}
		} else {
			if len(dst) < len(st)/2 {
				bad("StereoToMono(len %d, %v) does not reject", len(dst), st)
			}
			for i := 0; i < len(st)/2; i++ {
				if w := int16((int(st[2*i]) + int(st[2*i+1])) / 2); dst[i] != w {
					bad("StereoToMono(%v)[%d] = %d, want %d", st, i, dst[i], w)
				}
			}
		}
		by := make([]byte, r.Intn(20))
		for i := range by {
			by[i] = 0xA5
		}
		n, err := src.CopyTo(by)
		if len(by) < 2*len(src) {
			if err != io.ErrShortBuffer {
				bad("CopyTo(%d bytes) of %v: %d, %v", len(by), src, n, err)
			}
			for _, b := range by {
				if b != 0xA5 {
					bad("CopyTo(%d bytes) of %v wrote %v", len(by), src, by)
				}
			}
		} else {
			if err != nil || n != 2*len(src) || src.Size() != n {
				bad("CopyTo of %v: %d, %v", src, n, err)
			}
			for i, v := range src {
				if by[2*i] != byte(v) || by[2*i+1] != byte(uint16(v)>>8) {
					bad("CopyTo of %v: %v", src, by)
				}
			}
		}
		if fmt.Sprint(src) != fmt.Sprint(cp) {
			bad("source changed")
		}
		var frames []PCM16Sample
		var buf, app PCM16Sample
		fw, bw := NewPCM16FrameWriter(&frames, 8000), NewPCM16BufferWriter(&buf, 8000)
		var all PCM16Sample
		var each []string
		for k := 0; k < r.Intn(5); k++ {
			x := mk(r.Intn(5))
			all = append(all, x...)
			each = append(each, fmt.Sprint(append(PCM16Sample{}, x...)))
			if fw.WriteSample(x) != nil || bw.WriteSample(x) != nil || app.WriteSample(x) != nil {
				bad("writer error")
			}
			clear(x)
		}
		var got []string
		for _, f := range frames {
			got = append(got, fmt.Sprint(f))
		}
		if fmt.Sprint(got) != fmt.Sprint(each) || fmt.Sprint(append(PCM16Sample{}, buf...)) != fmt.Sprint(append(PCM16Sample{}, all...)) || fmt.Sprint(append(PCM16Sample{}, app...)) != fmt.Sprint(append(PCM16Sample{}, all...)) {
			bad("writers of %v kept %v, %v, %v", all, frames, buf, app)
		}
		rd := NewPCM16BufferReader(all)
		var back PCM16Sample
		for k := 0; k < 40; k++ {
			x := make(PCM16Sample, 1+r.Intn(4))
			n, err := rd.ReadSample(x)
			back = append(back, x[:n]...)
			if n == 0 || err != nil {
				break
			}
		}
		if fmt.Sprint(append(PCM16Sample{}, back...)) != fmt.Sprint(append(PCM16Sample{}, all...)) {
			bad("reader of %v returned %v", all, back)
		}
		src.Clear()
		for _, v := range src {
			if v != 0 {
				bad("Clear left %v", src)
			}
		}
	}
}
