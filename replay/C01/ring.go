// overlay: ring
package ring

import (
	"fmt"
	"io"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// TestVerifC01 drives a ring buffer and a plain queue with the same operations.
func TestVerifC01(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for it := 0; it < 30000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		n := 1 + r.Intn(7)
		b := NewBuffer[int](n)
		var q []int
		next := 1
		hist := fmt.Sprintf("NewBuffer(%d)", n)
		bad := func(f string, a ...any) { t.Fatalf("FAILING-INPUT C01: %s: %s", hist, fmt.Sprintf(f, a...)) }
		func() {
			defer func() {
				if e := recover(); e != nil {
					bad("panic %v", e)
				}
			}()
			for op := 0; op < 25; op++ {
				switch r.Intn(6) {
				case 0, 1:
					k := r.Intn(2*n + 3)
					p := make([]int, k)
					for i := range p {
						p[i] = next
						next++
					}
					hist += fmt.Sprintf(" Write(%d)", k)
					m, err := b.Write(p)
					if m != k || err != nil {
						bad("returned %d, %v", m, err)
					}
					q = append(q, p...)
					if len(q) > n {
						q = q[len(q)-n:]
					}
				case 2:
					k := r.Intn(n + 3)
					hist += fmt.Sprintf(" Read(%d)", k)
					p := make([]int, k)
					m, err := b.Read(p)
					if k > 0 && len(q) == 0 {
						if m != 0 || err != io.EOF {
							bad("empty read returned %d, %v", m, err)
						}
						continue
					}
					w := min(k, len(q))
					if m != w || err != nil {
						bad("returned %d, %v, want %d", m, err, w)
					}
					for i := 0; i < m; i++ {
						if p[i] != q[i] {
							bad("element %d is %d, want %d", i, p[i], q[i])
						}
					}
					q = q[w:]
				case 3:
					hist += " Push"
					b.Push(next)
					q = append(q, next)
					next++
					if len(q) > n {
						q = q[1:]
					}
				case 4:
					hist += " TryPush"
					ok := b.TryPush(next)
					if ok != (len(q) < n) {
						bad("returned %v with %d pending", ok, len(q))
					}
					if ok {
						q = append(q, next)
					}
					next++
				case 5:
					hist += " TryPop"
					v, ok := b.TryPop()
					if ok != (len(q) > 0) || ok && v != q[0] {
						bad("returned %d, %v", v, ok)
					}
					if ok {
						q = q[1:]
					}
				}
				if b.Len() != len(q) || b.Size() != n {
					bad("Len %d, Size %d, want %d, %d", b.Len(), b.Size(), len(q), n)
				}
				v, ok := b.TryPeek()
				if ok != (len(q) > 0) || ok && v != q[0] {
					bad("peek %d, %v", v, ok)
				}
			}
		}()
	}
}
