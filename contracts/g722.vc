package g722
// C23: the G.722 library is external; assumed: 64 kbit/s, one byte per sample at 8 kHz, per two samples at 16 kHz
ghost g7div 1      // samples per byte of a codec
ghost g7inN 1      // what the codec was given last
ghost g7in 2
ghost g7outN 1     // what it produced last
ghost g7out 2
ghost g7calls 1
nonnil Decoder.d, Decoder.w, Encoder.e, Encoder.w
def eight(f) = rem(f, 2) == 1 // FlagSampleRate8000
def per(f) = ite(eight(f), 1, 2)

extern g722.NewDecoder(rate, flags) d
  ensures d != nil && fresh(d) && g7calls(d) == 0
  ensures rate: rate == 64000 ==> g7div(d) == per(flags)
extern g722.NewEncoder(rate, flags) e
  ensures e != nil && fresh(e) && g7calls(e) == 0
  ensures rate: rate == 64000 ==> g7div(e) == per(flags)
extern g722.Decoder.Decode(d, dst, src) n
  requires room: len(dst) >= len(src) * g7div(d)
  modifies elems(dst), g7in(d), g7inN(d), g7out(d), g7outN(d), g7calls(d)
  ensures n == len(src) * g7div(d)
  set g7calls(d) := old(g7calls(d)) + 1
  set g7inN(d) := len(src)
  set g7in(d)[k] := ite(k >= 0 && k < len(src), src[k], 0)
  set g7outN(d) := n
  set g7out(d)[k] := ite(k >= 0 && k < len(dst), dst[k], 0)
extern g722.Encoder.Encode(e, dst, src) n
  requires pairs: rem(len(src), g7div(e)) == 0
  requires room: len(dst) * g7div(e) >= len(src)
  modifies elems(dst), g7in(e), g7inN(e), g7out(e), g7outN(e), g7calls(e)
  ensures n * g7div(e) == len(src)
  set g7calls(e) := old(g7calls(e)) + 1
  set g7inN(e) := len(src)
  set g7in(e)[k] := ite(k >= 0 && k < len(src), src[k], 0)
  set g7outN(e) := n
  set g7out(e)[k] := ite(k >= 0 && k < len(dst), dst[k], 0)

func Sample.Size(s) r
  prop C23
  ensures r == len(s)
func Sample.CopyTo(s, dst) n, err
  prop C23
  modifies elems(dst)
  ensures short: len(dst) < len(s) ==> n == 0 && err == io.ErrShortBuffer
  ensures ok: len(dst) >= len(s) ==> n == len(s) && err == nil && forall(k, 0, len(s), dst[k] == old(s[k]))
  ensures rest: forall(k, n, len(dst), dst[k] == old(dst[k]))

func decodeSize(flags, n) r
  prop C23
  requires 0 <= n && n < 2199023255552
  ensures r == n * per(flags)
func encodeSize(flags, n) r
  prop C23
  requires 0 <= n && n < 2199023255552
  ensures r == ite(eight(flags), n, quo(n + 1, 2))

def g7dok(d) = g7div(d.d) == per(d.f) && len(d.buf) == cap(d.buf)
def g7eok(e) = g7div(e.e) == per(e.f) && len(e.buf) == cap(e.buf)

func Decoder.WriteSample(d, in) err
  prop C23
  requires g7dok(d) && len(in) < 1099511627776
  modifies d.buf, elems(d.buf), wsmod(d.w), g7in(d.d), g7inN(d.d), g7out(d.d), g7outN(d.d), g7calls(d.d)
  ensures g7dok(d)
  ensures codec: g7calls(d.d) == old(g7calls(d.d)) + 1 && g7inN(d.d) == len(in) && forall(k, 0, len(in), g7in(d.d, k) == old(in[k]))
  ensures one: wscnt(d.w) == old(wscnt(d.w)) + 1 && wsfl(d.w, old(wscnt(d.w))) == g7outN(d.d) && g7outN(d.d) == len(in) * per(d.f) && sid(err) == wserr(d.w, old(wscnt(d.w)))
  ensures data: forall(k, 0, g7outN(d.d), wslog(d.w, old(wslen(d.w)) + k) == g7out(d.d, k))

func Encoder.WriteSample(e, in) err
  prop C23
  requires g7eok(e) && len(in) < 1099511627776
  modifies e.buf, elems(e.buf), wsmod(e.w), g7in(e.e), g7inN(e.e), g7out(e.e), g7outN(e.e), g7calls(e.e)
  ensures g7eok(e)
  ensures codec: g7calls(e.e) == old(g7calls(e.e)) + 1 && g7inN(e.e) == len(in) + rem(len(in), g7div(e.e)) && forall(k, 0, len(in), g7in(e.e, k) == old(in[k]))
  ensures one: wscnt(e.w) == old(wscnt(e.w)) + 1 && wsfl(e.w, old(wscnt(e.w))) == g7outN(e.e) && sid(err) == wserr(e.w, old(wscnt(e.w)))
  ensures size: g7outN(e.e) == ite(eight(e.f), len(in), quo(len(in) + 1, 2))
  ensures data: forall(k, 0, g7outN(e.e), wslog(e.w, old(wslen(e.w)) + k) == g7out(e.e, k))

func Decoder.Close(d) err
  prop C23
  modifies wcmod(d.w)
  ensures wclosed(d.w) == old(wclosed(d.w)) + 1 && sid(err) == wcerr(d.w, old(wclosed(d.w)))
func Decoder.SampleRate(d) r
  prop C23
  ensures r == rateOf(d.w)
func Encoder.Close(e) err
  prop C23
  modifies wcmod(e.w)
  ensures wclosed(e.w) == old(wclosed(e.w)) + 1 && sid(err) == wcerr(e.w, old(wclosed(e.w)))
func Encoder.SampleRate(e) r
  prop C23
  ensures r == rateOf(e.w)

func Decode$1()
  prop C23
  inline
func Encode$1()
  prop C23
  inline
func Decode(w) r
  prop C23
  requires 0 < rateOf(w) && rateOf(w) < 1000000
  modifies remod(), g722.g722ID
  ensures made: !dumpToFile ==> typeis(r, *Decoder) && g7dok(unbox(r, *Decoder)) && (rateOf(w) == 8000 || rateOf(w) == 16000 ==> unbox(r, *Decoder).w == w)
  ensures rate: !dumpToFile ==> rateOf(unbox(r, *Decoder).w) == ite(rateOf(w) == 8000, 8000, 16000) && eight(unbox(r, *Decoder).f) == (rateOf(w) == 8000)
func Encode(w) r
  prop C23
  panics rateOf(w) != 8000 && rateOf(w) != 16000
  modifies g722.g722ID
  ensures made: !dumpToFile ==> typeis(r, *Encoder) && g7eok(unbox(r, *Encoder)) && unbox(r, *Encoder).w == w && eight(unbox(r, *Encoder).f) == (rateOf(w) == 8000)
