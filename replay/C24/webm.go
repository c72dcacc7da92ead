// overlay: webm
package webm

import (
	"bytes"
	"errors"
	"math/rand"
	"testing"
	"time"

	"github.com/at-wat/ebml-go"
	"github.com/at-wat/ebml-go/webm"
)

type verifC24Frame struct {
	data []byte
	err  error
}

var errVerifC24 = errors.New("frame")

func (f verifC24Frame) Size() int { return len(f.data) }
func (f verifC24Frame) CopyTo(dst []byte) (int, error) {
	if f.err != nil {
		for i := range dst {
			dst[i] = 0xee
		}
		return 0, f.err
	}
	return copy(dst, f.data), nil
}

type verifC24Out struct {
	bytes.Buffer
	closed int
}

func (o *verifC24Out) Close() error { o.closed++; return nil }

func TestVerifC24Webm(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	for _, dur := range []time.Duration{20 * time.Millisecond, 2500 * time.Microsecond, 10 * time.Millisecond, 120 * time.Millisecond, 333 * time.Microsecond, 1500 * time.Microsecond} {
		out := &verifC24Out{}
		w := NewWriter[verifC24Frame](out, "A_TEST", 1, 48000, dur)
		if w.SampleRate() != 48000 {
			t.Fatalf("FAILING-INPUT C24: sample rate %d of 48000", w.SampleRate())
		}
		var want [][]byte
		for i := 0; i < 60; i++ {
			f := verifC24Frame{data: make([]byte, 1+rnd.Intn(1000))}
			rnd.Read(f.data)
			if i%7 == 3 {
				f.err = errVerifC24
			}
			err := w.WriteSample(f)
			if err != f.err {
				t.Fatalf("FAILING-INPUT C24: frame %d: serialising reported %v, writing %v", i, f.err, err)
			}
			if err == nil {
				want = append(want, f.data)
			}
		}
		if err := w.Close(); err != nil {
			t.Fatalf("FAILING-INPUT C24: closing reports %v", err)
		}
		if out.closed != 1 {
			t.Fatalf("FAILING-INPUT C24: output closed %d times", out.closed)
		}
		var c struct {
			Header  webm.EBMLHeader `ebml:"EBML"`
			Segment webm.Segment    `ebml:"Segment,size=unknown"`
		}
		if err := ebml.Unmarshal(bytes.NewReader(out.Bytes()), &c); err != nil {
			t.Fatal(err)
		}
		i := 0
		for _, cl := range c.Segment.Cluster {
			for _, b := range cl.SimpleBlock {
				if i >= len(want) {
					t.Fatalf("FAILING-INPUT C24: more blocks than frames (%d)", len(want))
				}
				ts := int64(cl.Timecode) + int64(b.Timecode)
				if exp := (time.Duration(i) * dur).Milliseconds(); ts != exp {
					t.Fatalf("FAILING-INPUT C24: frames of %v: frame %d at %d ms, not %d", dur, i, ts, exp)
				}
				if len(b.Data) != 1 || !bytes.Equal(b.Data[0], want[i]) {
					t.Fatalf("FAILING-INPUT C24: frame %d is not stored unchanged", i)
				}
				i++
			}
		}
		if i != len(want) {
			t.Fatalf("FAILING-INPUT C24: %d blocks for %d frames", i, len(want))
		}
	}
}
