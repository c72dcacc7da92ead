// overlay: rtp
package rtp

import (
	"errors"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"testing"
)

// TestVerifC10 registers handlers for all payload types and looks up all static codecs.
func TestVerifC10(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	hist := ""
	bad := func(f string, a ...any) { t.Fatalf("FAILING-INPUT C10: %s: %s", hist, fmt.Sprintf(f, a...)) }
	for i := 0; i < 256; i++ {
		func() {
			hist = fmt.Sprintf("CodecByPayloadType(%d)", i)
			defer func() {
				if e := recover(); e != nil {
					bad("panic %v", e)
				}
			}()
			if c := CodecByPayloadType(byte(i)); c != nil && c.Info().RTPDefType != byte(i) {
				bad("returned %+v", c.Info())
			}
		}()
	}
	var last string
	var gotH *Header
	var gotP []byte
	mk := func(n string, err error) Handler {
		return HandlerFunc(func(h *Header, p []byte) error {
			last += n
			gotH, gotP = h, p
			return err
		})
	}
	for it := 0; it < 2000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		reg := map[byte]string{}
		errs := map[string]error{}
		def := ""
		var m *Mux
		if r.Intn(2) == 0 {
			m = NewMux(nil)
			hist = "NewMux(nil)"
		} else {
			def = "D0"
			m = NewMux(mk(def, nil))
			hist = "NewMux(D0)"
		}
		pool := []byte{0, 1, 34, 35, 63, 64, 95, 96, 97, 127, 128, 224, 255, byte(r.Intn(256)), byte(r.Intn(256))}
		for op := 0; op < 25; op++ {
			switch r.Intn(4) {
			case 0, 1:
				p := pool[r.Intn(len(pool))]
				n := fmt.Sprintf("H%d.%d", op, p)
				hist += fmt.Sprintf(" Register(%d, %s)", p, n)
				errs[n] = nil
				if r.Intn(3) == 0 {
					errs[n] = errors.New(n)
				}
				m.Register(p, mk(n, errs[n]))
				reg[p] = n
			case 2:
				p := pool[r.Intn(len(pool))]
				hist += fmt.Sprintf(" Register(%d, nil)", p)
				m.Register(p, nil)
				delete(reg, p)
			case 3:
				if r.Intn(2) == 0 {
					hist += " SetDefault(nil)"
					m.SetDefault(nil)
					def = ""
				} else {
					def = fmt.Sprintf("D%d", op)
					hist += " SetDefault(" + def + ")"
					m.SetDefault(mk(def, nil))
				}
			}
			for p := 0; p < 256; p++ {
				last, gotH, gotP = "", nil, nil
				h, pay := &Header{PayloadType: byte(p)}, []byte{byte(op)}
				err := m.HandleRTP(h, pay)
				want, ok := reg[byte(p)]
				if !ok {
					want = def
				}
				if last != want || err != errs[want] {
					bad("type %d went to %q (err %v), want %q", p, last, err, want)
				}
				if want != "" && (gotH != h || len(gotP) != 1 || &gotP[0] != &pay[0]) {
					bad("type %d: packet changed", p)
				}
			}
		}
	}
}
