// overlay: .
package media

import (
	"bytes"
	"errors"
	"io"
	"math/rand"
	"testing"
)

type verifC24Frame struct {
	data []byte
	err  error
}

func (f verifC24Frame) Size() int { return len(f.data) }
func (f verifC24Frame) CopyTo(dst []byte) (int, error) {
	if len(dst) < len(f.data) {
		return 0, io.ErrShortBuffer
	}
	if f.err != nil {
		// a failing frame may have written something already
		for i := range dst {
			dst[i] = 0xee
		}
		return 0, f.err
	}
	return copy(dst, f.data), nil
}

type verifC24Out struct {
	buf    bytes.Buffer
	failAt int // fail once this many bytes were taken, <0: never
	closeE error
	closed int
	late   bool
}

var errVerifC24 = errors.New("write")

func (o *verifC24Out) Write(p []byte) (int, error) {
	if o.closed > 0 {
		o.late = true
	}
	if o.failAt >= 0 && o.buf.Len()+len(p) > o.failAt {
		return 0, errVerifC24
	}
	return o.buf.Write(p)
}

func (o *verifC24Out) Close() error { o.closed++; return o.closeE }

func TestVerifC24File(t *testing.T) {
	rnd := rand.New(rand.NewSource(1))
	errFrame, errClose := errors.New("frame"), errors.New("close")
	for it := 0; it < 2000; it++ {
		out := &verifC24Out{failAt: -1}
		if it%3 == 1 {
			out.failAt = rnd.Intn(20000)
		}
		if it%2 == 1 {
			out.closeE = errClose
		}
		w := NewFileWriter[verifC24Frame](out, 8000+it)
		if w.SampleRate() != 8000+it {
			t.Fatalf("FAILING-INPUT C24: sample rate %d of a file made with %d", w.SampleRate(), 8000+it)
		}
		var want []byte
		var first error
		for i, n := 0, rnd.Intn(12); i < n; i++ {
			sz := []int{0, 1, 7, 160, 320, 960, 4095, 4096, 4097, 9000}[rnd.Intn(10)]
			f := verifC24Frame{data: make([]byte, sz)}
			rnd.Read(f.data)
			if rnd.Intn(6) == 0 {
				f.err = errFrame
			}
			err := w.WriteSample(f)
			if f.err != nil {
				if err != errFrame {
					t.Fatalf("FAILING-INPUT C24: frame that fails to serialise: reported %v", err)
				}
				continue
			}
			if err != nil && first == nil {
				first = err
			}
			if err != nil && err != errVerifC24 {
				t.Fatalf("FAILING-INPUT C24: write of %d bytes: reported %v", sz, err)
			}
			if first == nil {
				want = append(want, f.data...)
			}
		}
		err := w.Close()
		if out.closed != 1 || out.late {
			t.Fatalf("FAILING-INPUT C24: output closed %d times, written after closing %v", out.closed, out.late)
		}
		fail := out.failAt >= 0 && (first != nil || len(want) > out.failAt)
		switch {
		case fail && err != errVerifC24:
			t.Fatalf("FAILING-INPUT C24: closing after a failed write reports %v", err)
		case !fail && out.closeE != nil && err != errClose, !fail && out.closeE == nil && err != nil:
			t.Fatalf("FAILING-INPUT C24: closing reports %v, the output reported %v", err, out.closeE)
		case !fail && !bytes.Equal(out.buf.Bytes(), want):
			t.Fatalf("FAILING-INPUT C24: file holds %d bytes, frames had %d (or other contents)", out.buf.Len(), len(want))
		}
	}
}
