// overlay: dtmf
package dtmf

import (
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"

	"github.com/livekit/media-sdk/rtp"
)

const vC12digits = "0123456789*#abcd"

// TestVerifC12 compares encoding and decoding of events with the RFC 4733 layout.
func TestVerifC12(t *testing.T) {
	lo := strings.Split("941 697 697 697 770 770 770 852 852 852 941 941 697 770 852 941", " ")
	hi := strings.Split("1336 1209 1336 1477 1209 1336 1477 1209 1336 1477 1209 1477 1633 1633 1633 1633", " ")
	for d := 0; d < 256; d++ {
		c, f := Tone(byte(d))
		i := strings.IndexByte(vC12digits, byte(d))
		if i < 0 {
			if c != 0 || len(f) != 0 {
				t.Fatalf("FAILING-INPUT C12: Tone(%d) = %d %v for an unknown digit", d, c, f)
			}
			continue
		}
		if int(c) != i || len(f) != 2 || strconv.Itoa(int(f[0])) != lo[i] || strconv.Itoa(int(f[1])) != hi[i] {
			t.Fatalf("FAILING-INPUT C12: Tone(%q) = %d %v", d, c, f)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	r := rand.New(rand.NewSource(int64(seed)))
	for it := 0; it < 300000; it++ {
		data := make([]byte, r.Intn(8))
		r.Read(data)
		if len(data) > 0 && r.Intn(2) == 0 {
			data[0] = byte(r.Intn(18))
		}
		ev, err := Decode(data)
		ev2, ok2 := DecodeRTP(&rtp.Header{Marker: true}, data)
		_, ok3 := DecodeRTP(&rtp.Header{}, data)
		var want Event
		if len(data) >= 4 {
			want = Event{Code: data[0], End: data[1]&128 != 0, Volume: data[1] & 63, Dur: uint16(data[2])<<8 | uint16(data[3])}
			if data[0] < 16 {
				want.Digit = vC12digits[data[0]]
			}
		}
		if (err == nil) != (len(data) >= 4) || ev != want || ok2 != (err == nil) || ok3 || ev2 != want {
			t.Fatalf("FAILING-INPUT C12: payload %v decodes to %+v %v / %+v %v %v", data, ev, err, ev2, ok2, ok3)
		}
		e := Event{Code: byte(r.Intn(256)), Volume: byte(r.Intn(256)), Dur: uint16(r.Intn(65536)), End: r.Intn(2) == 0}
		code := e.Code
		if r.Intn(2) == 0 {
			code = byte(r.Intn(16))
			e.Digit = vC12digits[code]
		}
		out := make([]byte, r.Intn(8))
		for i := range out {
			out[i] = 0xaa
		}
		n, err := Encode(out, e)
		w := []byte{code, e.Volume & 63, byte(e.Dur >> 8), byte(e.Dur)}
		if e.End {
			w[1] |= 128
		}
		good := (err == nil) == (len(out) >= 4)
		for i, b := range out {
			if len(out) < 4 || i >= 4 {
				good = good && b == 0xaa
			} else {
				good = good && b == w[i]
			}
		}
		if !good || err == nil && n != 4 || err != nil && n != 0 {
			t.Fatalf("FAILING-INPUT C12: Encode(%d bytes, %+v) = %d %v %v", len(out), e, n, err, out)
		}
	}
}
