// overlay: .
package media

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"testing"
)

// TestVerifC18 drives the codec registry against a list and a set.
func TestVerifC18(t *testing.T) {
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	for it := 0; it < 3000; it++ {
		r := rand.New(rand.NewSource(int64(seed)*1000003 + int64(it)))
		base := Codecs()
		pre := fmt.Sprintf("V%d-%d-", seed, it)
		off := map[string]bool{}
		var regs []Codec
		var seen [][]Codec
		hist := ""
		bad := func(f string, a ...any) { t.Fatalf("FAILING-INPUT C18: %s: %s", hist, fmt.Sprintf(f, a...)) }
		name := func() string {
			s := pre + string(rune('a'+r.Intn(4)))
			if r.Intn(2) == 0 {
				s = strings.ToUpper(s)
			}
			return s
		}
		all := func() []Codec { return append(append([]Codec{}, base...), regs...) }
		for op := 0; op < 10; op++ {
			switch r.Intn(4) {
			case 0:
				c := NewCodec(CodecInfo{SDPName: name(), SampleRate: 8000, Disabled: r.Intn(3) == 0})
				hist += fmt.Sprintf(" Register(%s, disabled %v)", c.Info().SDPName, c.Info().Disabled)
				RegisterCodec(c)
				regs = append(regs, c)
				if c.Info().Disabled {
					off[strings.ToLower(c.Info().SDPName)] = true
				}
			case 1:
				hist += " OnRegister"
				i := len(seen)
				seen = append(seen, nil)
				OnRegister(func(c Codec) { seen[i] = append(seen[i], c) })
			case 2:
				n, on := name(), r.Intn(2) == 0
				hist += fmt.Sprintf(" SetEnabled(%s, %v)", n, on)
				CodecSetEnabled(n, on)
				off[strings.ToLower(n)] = !on
			case 3:
				n, on := name(), r.Intn(2) == 0
				hist += fmt.Sprintf(" SetsEnabled(%s, %v)", n, on)
				CodecsSetEnabled(map[string]bool{n: on})
				off[strings.ToLower(n)] = !on
			}
			want := all()
			if fmt.Sprintf("%p", Codecs()) != fmt.Sprintf("%p", want) && len(Codecs()) != len(want) {
				bad("%d codecs, want %d", len(Codecs()), len(want))
			}
			for i, c := range Codecs() {
				if c != want[i] {
					bad("codec %d is %v", i, c.Info())
				}
			}
			for i, s := range seen {
				if len(s) != len(want) {
					bad("subscriber %d saw %d codecs, want %d", i, len(s), len(want))
				}
				for j := range s {
					if s[j] != want[j] {
						bad("subscriber %d saw %v at %d", i, s[j].Info(), j)
					}
				}
			}
			var en []Codec
			for _, c := range regs {
				o := off[strings.ToLower(c.Info().SDPName)]
				if CodecEnabled(c) == o || CodecEnabledByName(c.Info().SDPName) == o || CodecEnabledByName(strings.ToUpper(c.Info().SDPName)) == o {
					bad("codec %s enabled: %v", c.Info().SDPName, CodecEnabled(c))
				}
				if !o {
					en = append(en, c)
				}
			}
			var got []Codec
			for _, c := range EnabledCodecs() {
				if strings.HasPrefix(strings.ToLower(c.Info().SDPName), strings.ToLower(pre)) {
					got = append(got, c)
				}
			}
			if len(got) != len(en) {
				bad("%d enabled, want %d", len(got), len(en))
			}
			for i := range en {
				if got[i] != en[i] {
					bad("enabled codec %d is %v", i, got[i].Info())
				}
			}
		}
		codecs, codecOnRegister = nil, nil
	}
}
