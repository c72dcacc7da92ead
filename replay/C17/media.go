// overlay: .
package media

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

type vC17w struct {
	rate   int
	got    []int16
	writes int
	closed int
	werr   error
	cerr   error
	log    *[]int
	id     int
}

func (w *vC17w) String() string  { return fmt.Sprint("w", w.id) }
func (w *vC17w) SampleRate() int { return w.rate }
func (w *vC17w) Close() error {
	w.closed++
	*w.log = append(*w.log, -w.id)
	return w.cerr
}
func (w *vC17w) WriteSample(s PCM16Sample) error {
	w.writes++
	w.got = append(w.got, s...)
	*w.log = append(*w.log, w.id)
	return w.werr
}

func vC17try(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

// TestVerifC17 drives switch and fan-out writers against a record of what their members saw.
func TestVerifC17(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for it := 0; it < 20000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		var log []int
		id := 0
		mk := func() *vC17w {
			id++
			w := &vC17w{rate: 8000, log: &log, id: id}
			if r.Intn(2) == 0 {
				w.werr = fmt.Errorf("write %d", id)
				if r.Intn(3) == 0 {
					w.werr = []error{io.EOF, io.ErrClosedPipe, io.ErrShortBuffer}[r.Intn(3)]
				}
			}
			if r.Intn(2) == 0 {
				w.cerr = fmt.Errorf("close %d", id)
				if r.Intn(3) == 0 {
					w.cerr = []error{io.EOF, io.ErrClosedPipe, io.ErrShortBuffer}[r.Intn(3)]
				}
			}
			return w
		}
		hist := ""
		bad := func(f string, a ...any) { t.Fatalf("FAILING-INPUT C17: %s: %s", hist, fmt.Sprintf(f, a...)) }

		// fan-out
		n := r.Intn(4)
		var mw MultiWriter[PCM16Sample]
		var ws []*vC17w
		var wantW, wantC error
		for i := 0; i < n; i++ {
			w := mk()
			ws = append(ws, w)
			mw = append(mw, w)
			if w.werr != nil {
				wantW = w.werr
			}
			if w.cerr != nil {
				wantC = w.cerr
			}
		}
		hist = fmt.Sprintf("MultiWriter of %d", n)
		for _, w := range ws {
			hist += fmt.Sprintf(" [%v %v]", w.werr, w.cerr)
		}
		for k := 1; k <= 2; k++ {
			if err := mw.WriteSample(PCM16Sample{int16(k), 7}); err != wantW {
				bad("write returned %v, want %v", err, wantW)
			}
			for i, w := range ws {
				if w.writes != k || w.got[2*k-2] != int16(k) || log[(k-1)*n+i] != w.id {
					bad("member %d saw %v, order %v", i, w.got, log)
				}
			}
		}
		if err := mw.Close(); err != wantC {
			bad("close returned %v, want %v", err, wantC)
		}
		for i, w := range ws {
			if w.closed != 1 || log[2*n+i] != -w.id {
				bad("member %d closed %d times, order %v", i, w.closed, log)
			}
		}

		// switch
		rate := []int{8000, -1, -5}[r.Intn(3)]
		s := NewSwitchWriter(rate)
		hist = fmt.Sprintf("NewSwitchWriter(%d)", rate)
		set := rate > 0
		var cur *vC17w
		off := false
		for op := 0; op < 12; op++ {
			switch r.Intn(7) {
			case 0:
				hist += " SetSampleRate"
				if p := vC17try(func() { s.SetSampleRate(8000) }); p != set {
					bad("panic %v", p)
				}
				set = true
			case 1:
				hist += " Swap(w)"
				w := mk()
				var old PCM16Writer
				if p := vC17try(func() { old = s.Swap(w) }); p == set {
					bad("panic %v", p)
				} else if p {
					continue
				}
				if cur == nil && old != nil || cur != nil && old != PCM16Writer(cur) {
					bad("returned %v, want %v", old, cur)
				}
				if cur != nil && cur.closed != 0 {
					bad("old writer closed")
				}
				cur = w
			case 2:
				hist += " Swap(nil)"
				old := s.Swap(nil)
				if cur == nil && old != nil || cur != nil && old != PCM16Writer(cur) {
					bad("returned %v, want %v", old, cur)
				}
				if cur != nil && cur.closed != 0 {
					bad("old writer closed")
				}
				cur = nil
			case 3:
				off = !off
				hist += fmt.Sprint(" off=", off)
				if off {
					s.Disable()
				} else {
					s.Enable()
				}
			case 4, 5:
				hist += " Write"
				n := len(log)
				err := s.WriteSample(PCM16Sample{int16(op)})
				if cur == nil || off {
					if err != nil || len(log) != n {
						bad("err %v, %d calls", err, len(log)-n)
					}
				} else if err != cur.werr || len(log) != n+1 || log[n] != cur.id || cur.got[len(cur.got)-1] != int16(op) {
					bad("err %v, calls %v", err, log[n:])
				}
			case 6:
				hist += " Close"
				n := len(log)
				err := s.Close()
				if cur == nil {
					if err != nil || len(log) != n {
						bad("err %v", err)
					}
				} else if err != cur.cerr || len(log) != n+1 || log[n] != -cur.id {
					bad("err %v, calls %v", err, log[n:])
				}
				cur = nil
			}
			if set && s.SampleRate() != 8000 {
				bad("rate %d", s.SampleRate())
			}
			g := s.Get()
			if cur == nil && g != nil || cur != nil && g != PCM16Writer(cur) {
				bad("attached %v, want %v", g, cur)
			}
		}
	}
}
