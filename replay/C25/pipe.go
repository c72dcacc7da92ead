// overlay: .
package media

import (
	"errors"
	"fmt"
	"io"
	"math/rand"
	"os"
	"runtime"
	"strconv"
	"sync"
	"testing"
	"time"
)

// TestVerifC25 runs one writer against one reader and both ends' closing in all orders.
func TestVerifC25(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	bad := func(f string, a ...any) { t.Fatalf("FAILING-INPUT C25: %s", fmt.Sprintf(f, a...)) }
	wait := func(c chan struct{}, what string) {
		select {
		case <-c:
		case <-time.After(20 * time.Second):
			bad("%s: blocked", what)
		}
	}
	for it := 0; it < 3000; it++ {
		rr := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		rd, wr := Pipe[PCM16Sample, int16](8000)
		var all []int16
		sizes := []int{}
		for k := 0; k < 1+rr.Intn(4); k++ {
			sizes = append(sizes, rr.Intn(7))
		}
		bufs := []int{}
		for k := 0; k < 64; k++ {
			bufs = append(bufs, 1+rr.Intn(4))
		}
		hist := fmt.Sprintf("writes %v, read sizes %v...", sizes, bufs[:6])
		next := int16(0)
		consumed := make(chan int, 1)
		done := make(chan struct{})
		var got []int16
		var rerr error
		var progress int
		go func() {
			defer close(done)
			for i := 0; ; i++ {
				b := make(PCM16Sample, bufs[i%64])
				n, err := rd.ReadSample(b)
				if err != nil {
					rerr = err
					return
				}
				got = append(got, b[:n]...)
				progress++
			}
		}()
		wd := make(chan struct{})
		var werr error
		var reason error
		if rr.Intn(2) == 0 {
			reason = errors.New("reason")
		}
		go func() {
			defer close(wd)
			for _, n := range sizes {
				p := make(PCM16Sample, n)
				for i := range p {
					next++
					p[i] = next
				}
				all = append(all, p...)
				c := append(PCM16Sample{}, p...)
				if err := wr.WriteSample(c); err != nil {
					werr = err
				}
				clear(c)
				if rr.Intn(3) == 0 {
					runtime.Gosched()
				}
			}
			wr.CloseWithError(reason)
			if rr.Intn(2) == 0 {
				wr.CloseWithError(errors.New("second"))
			}
		}()
		wait(wd, hist)
		wait(done, hist)
		_ = consumed
		if werr != nil {
			bad("%s: write error %v", hist, werr)
		}
		if len(got) != len(all) {
			bad("%s: got %v, want %v", hist, got, all)
		}
		for i := range all {
			if got[i] != all[i] {
				bad("%s: got %v, want %v", hist, got, all)
			}
		}
		want := reason
		if want == nil {
			want = io.EOF
		}
		if rerr != want {
			bad("%s: reader saw %v, want %v", hist, rerr, want)
		}
		if _, err := rd.ReadSample(make(PCM16Sample, 1)); err != want {
			bad("%s: later read saw %v, want %v", hist, err, want)
		}

		// the reading end closes after taking k elements of a write
		rd, wr = Pipe[PCM16Sample, int16](8000)
		k, n := rr.Intn(4), 1+rr.Intn(5)
		wd = make(chan struct{})
		var cnt int
		go func() {
			defer close(wd)
			cnt, werr = wr.r.pipe.write(make(PCM16Sample, n))
		}()
		m := 0
		for m < k && m < n {
			x, err := rd.ReadSample(make(PCM16Sample, 1))
			if err != nil {
				bad("read failed: %v", err)
			}
			m += x
		}
		rd.CloseWithError(reason)
		rd.CloseWithError(errors.New("second"))
		wait(wd, "write while the reader closes")
		want = reason
		if want == nil {
			want = io.ErrClosedPipe
		}
		if cnt != m || m < n && werr != want || m == n && werr != nil {
			bad("write of %d, %d consumed, reader closed with %v: returned %d, %v", n, m, reason, cnt, werr)
		}
		if err := wr.WriteSample(make(PCM16Sample, 2)); err != want {
			bad("write after the reader closed with %v: %v", reason, err)
		}

		// both ends close in some order with some reasons; then both sides look again
		rd, wr = Pipe[PCM16Sample, int16](8000)
		var r1, w1 error
		hist = ""
		for i := 0; i < 1+rr.Intn(4); i++ {
			e := []error{nil, errors.New("a"), io.EOF, io.ErrClosedPipe}[rr.Intn(4)]
			if rr.Intn(2) == 0 {
				hist += fmt.Sprintf(" read end closed with %v;", e)
				rd.CloseWithError(e)
				if e == nil {
					e = io.ErrClosedPipe
				}
				if r1 == nil {
					r1 = e
				}
			} else {
				hist += fmt.Sprintf(" write end closed with %v;", e)
				wr.CloseWithError(e)
				if e == nil {
					e = io.EOF
				}
				if w1 == nil {
					w1 = e
				}
			}
			wantR, wantW := io.ErrClosedPipe, io.ErrClosedPipe
			if r1 == nil {
				wantR = w1
			}
			if w1 == nil {
				wantW = r1
			}
			if _, err := rd.ReadSample(make(PCM16Sample, 1)); err != wantR {
				bad("%s read: %v, want %v", hist, err, wantR)
			}
			if err := wr.WriteSample(make(PCM16Sample, 1)); err != wantW {
				bad("%s write: %v, want %v", hist, err, wantW)
			}
		}

		// writers at the same time: the parts of one write stay together
		if it%4 == 0 {
			rd, wr = Pipe[PCM16Sample, int16](8000)
			const writers, each = 3, 4
			var left sync.WaitGroup
			for k := 1; k <= writers; k++ {
				left.Add(1)
				go func() {
					defer left.Done()
					for i := 0; i < 3; i++ {
						wr.WriteSample(PCM16Sample{int16(k * 10), int16(k*10 + 1), int16(k*10 + 2), int16(k*10 + 3)})
					}
				}()
			}
			go func() { left.Wait(); wr.Close() }()
			got = nil
			for {
				b := make(PCM16Sample, 1+rr.Intn(3))
				n, err := rd.ReadSample(b)
				if err != nil {
					break
				}
				got = append(got, b[:n]...)
			}
			if len(got) != writers*each*3 {
				bad("three writers: %v", got)
			}
			for i, v := range got {
				if int(v)%10 != i%each || i%each > 0 && v != got[i-1]+1 {
					bad("three writers of four elements each: %v", got)
				}
			}
		}
	}
}
