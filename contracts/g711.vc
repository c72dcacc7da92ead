package g711
// C14: the 256 entry expansion tables, the companding tables and the codecs built on them.

// A-law (G.711 table 1): the code with the even bits inverted is sign, 3 bit segment, 4 bit step
def aseg(w) = (w / 16) % 8
def astep(w) = w % 16
def amag(w) = ite(aseg(w) == 0, 16 * astep(w) + 8, ite(aseg(w) == 1, 16 * astep(w) + 264, ite(aseg(w) == 2, 32 * astep(w) + 528, ite(aseg(w) == 3, 64 * astep(w) + 1056, ite(aseg(w) == 4, 128 * astep(w) + 2112, ite(aseg(w) == 5, 256 * astep(w) + 4224, ite(aseg(w) == 6, 512 * astep(w) + 8448, 1024 * astep(w) + 16896)))))))
def alin(w) = ite(w >= 128, amag(w), 0 - amag(w))
opaque aval(b) = alin(bxor(b, 85))
// mu-law (G.711 table 2): the code inverted is sign, 3 bit segment, 4 bit step
def umag(w) = ite(aseg(w) == 0, 8 * astep(w), ite(aseg(w) == 1, 16 * astep(w) + 132, ite(aseg(w) == 2, 32 * astep(w) + 396, ite(aseg(w) == 3, 64 * astep(w) + 924, ite(aseg(w) == 4, 128 * astep(w) + 1980, ite(aseg(w) == 5, 256 * astep(w) + 4092, ite(aseg(w) == 6, 512 * astep(w) + 8316, 1024 * astep(w) + 16764)))))))
opaque ulin(w) = ite(w >= 128, 0 - umag(w), umag(w))

func alaw2linear(v) r
  prop C14
  inline
  reveal aval
  ensures r == aval(v)

func ulaw2linear(v) r
  prop C14
  inline
  reveal ulin
  ensures r == ulin(255 - v)

// decision values (on 14 bit samples): half way between neighbouring values, as in the reference encoder
def athr(i) = (amag(i) + amag(i + 1) + 4) / 8
def uthr(i) = (umag(i) + umag(i + 1) + 4) / 8
def apicks(c, j) = 0 <= c && c <= 127 && (c < 127 ==> j < athr(c)) && (c > 0 ==> athr(c - 1) <= j)
def upicks(c, j) = 0 <= c && c <= 127 && (c < 127 ==> j < uthr(c)) && (c > 0 ==> uthr(c - 1) <= j)
// the code byte b is the one for a sample of sign neg and 14 bit magnitude j
opaque acode(b, neg, j) = ite(neg, bxor(b, 85) < 128 && apicks(bxor(b, 85), j), bxor(b, 85) >= 128 && apicks(bxor(b, 85) - 128, j))
opaque ucode(b, neg, j) = ite(neg, 255 - b >= 128 && upicks(127 - b, j), 255 - b < 128 && upicks(255 - b, j))
def aenc(b, s) = acode(b, s < 0, ite(s < 0, 8192 - (s + 32768) / 4, s / 4))
def uenc(b, s) = ucode(b, s < 0, ite(s < 0, 8192 - (s + 32768) / 4, s / 4))

// the tables are built by a closed program: executed exhaustively and checked entry by entry
globalinv alaw2lin aexpand: each(k, 0, 256, alaw2lin[k] == aval(k))
globalinv ulaw2lin uexpand: each(k, 0, 256, ulaw2lin[k] == ulin(255 - k))
globalinv lin2alaw apos: each(k, 0, 8192, acode(lin2alaw[8192 + k], false, k))
globalinv lin2alaw aneg: each(k, 1, 8193, acode(lin2alaw[8192 - k], true, k))
globalinv lin2ulaw upos: each(k, 0, 8192, ucode(lin2ulaw[8192 + k], false, k))
globalinv lin2ulaw uneg: each(k, 1, 8193, ucode(lin2ulaw[8192 - k], true, k))

func init@alaw2lin()
  prop C14
  modifies alaw2lin, ulaw2lin, lin2alaw, lin2ulaw
  unroll 20000
  reveal aval, ulin, acode, ucode

func DecodeALawTo(out, buf)
  prop C14
  panics len(out) < len(buf)
  modifies elems(out[:len(buf)])
  ensures forall(k, 0, len(buf), out[k] == aval(buf[k]))
  loop $i <= len(out)
  loop forall(k, 0, $i, out[k] == aval(buf[k]))

func EncodeALawTo(out, buf)
  prop C14
  panics len(out) < len(buf)
  modifies elems(out[:len(buf)])
  ensures forall(k, 0, len(buf), aenc(out[k], buf[k]))
  loop $i <= len(out)
  loop forall(k, 0, $i, aenc(out[k], buf[k]))

func ALawSample.Size(s) r
  prop C14
  ensures r == len(s)

func ALawSample.CopyTo(s, dst) n, err
  prop C14
  modifies elems(dst[:len(s)])
  ensures short: len(dst) < len(s) ==> n == 0 && err == io.ErrShortBuffer && forall(k, 0, len(dst), dst[k] == old(dst[k]))
  ensures ok: len(dst) >= len(s) ==> n == len(s) && err == nil && forall(k, 0, len(s), dst[k] == old(s[k]))

func ALawSample.Decode(s) r
  prop C14
  ensures len(r) == len(s) && fresh(r) && forall(k, 0, len(s), r[k] == aval(s[k]))

func ALawSample.Encode(s, data)
  prop C14
  modifies *s
  ensures len(*s) == len(data) && fresh(*s) && forall(k, 0, len(data), aenc((*s)[k], data[k]))

nonnil ALawDecoder.w, ALawEncoder.w
func ALawDecoder.WriteSample(d, in) err
  prop C14
  requires noalias: ref(d.buf) != ref(in)
  modifies d.buf, elemscap(d.buf), wsmod(d.w)
  ensures one: wscnt(d.w) == old(wscnt(d.w)) + 1 && wslen(d.w) == old(wslen(d.w)) + len(in) && sid(err) == wserr(d.w, old(wscnt(d.w)))
  ensures out: forall(k, 0, len(in), wslog(d.w, old(wslen(d.w)) + k) == aval(in[k]))

func ALawEncoder.WriteSample(e, in) err
  prop C14
  requires noalias: ref(e.buf) != ref(in)
  modifies e.buf, elemscap(e.buf), wsmod(e.w)
  ensures one: wscnt(e.w) == old(wscnt(e.w)) + 1 && wslen(e.w) == old(wslen(e.w)) + len(in) && sid(err) == wserr(e.w, old(wscnt(e.w)))
  ensures out: forall(k, 0, len(in), aenc(wslog(e.w, old(wslen(e.w)) + k), in[k]))

func ALawDecoder.SampleRate(d) r
  prop C14
  ensures r == rateOf(d.w)
func ALawEncoder.SampleRate(e) r
  prop C14
  ensures r == rateOf(e.w)
func ALawDecoder.Close(d) err
  prop C14
  modifies wcmod(d.w)
  ensures wclosed(d.w) == old(wclosed(d.w)) + 1 && sid(err) == wcerr(d.w, old(wclosed(d.w)))
func ALawEncoder.Close(e) err
  prop C14
  modifies wcmod(e.w)
  ensures wclosed(e.w) == old(wclosed(e.w)) + 1 && sid(err) == wcerr(e.w, old(wclosed(e.w)))

func DecodeALaw(w) r
  prop C14
  requires 0 < rateOf(w) && rateOf(w) < 1000000
  modifies remod()
  ensures same: rateOf(w) == 8000 ==> unbox(r, *ALawDecoder).w == w
  ensures rate: rateOf(unbox(r, *ALawDecoder).w) == 8000

func EncodeALaw(w) r
  prop C14
  panics rateOf(w) != 8000
  ensures unbox(r, *ALawEncoder).w == w

func DecodeULawTo(out, buf)
  prop C14
  panics len(out) < len(buf)
  modifies elems(out[:len(buf)])
  ensures forall(k, 0, len(buf), out[k] == ulin(255 - buf[k]))
  loop $i <= len(out)
  loop forall(k, 0, $i, out[k] == ulin(255 - buf[k]))

func EncodeULawTo(out, buf)
  prop C14
  panics len(out) < len(buf)
  modifies elems(out[:len(buf)])
  ensures forall(k, 0, len(buf), uenc(out[k], buf[k]))
  loop $i <= len(out)
  loop forall(k, 0, $i, uenc(out[k], buf[k]))

func ULawSample.Size(s) r
  prop C14
  ensures r == len(s)

func ULawSample.CopyTo(s, dst) n, err
  prop C14
  modifies elems(dst[:len(s)])
  ensures short: len(dst) < len(s) ==> n == 0 && err == io.ErrShortBuffer && forall(k, 0, len(dst), dst[k] == old(dst[k]))
  ensures ok: len(dst) >= len(s) ==> n == len(s) && err == nil && forall(k, 0, len(s), dst[k] == old(s[k]))

func ULawSample.Decode(s) r
  prop C14
  ensures len(r) == len(s) && fresh(r) && forall(k, 0, len(s), r[k] == ulin(255 - s[k]))

func ULawSample.Encode(s, data)
  prop C14
  modifies *s
  ensures len(*s) == len(data) && fresh(*s) && forall(k, 0, len(data), uenc((*s)[k], data[k]))

nonnil ULawDecoder.w, ULawEncoder.w
func ULawDecoder.WriteSample(d, in) err
  prop C14
  requires noalias: ref(d.buf) != ref(in)
  modifies d.buf, elemscap(d.buf), wsmod(d.w)
  ensures one: wscnt(d.w) == old(wscnt(d.w)) + 1 && wslen(d.w) == old(wslen(d.w)) + len(in) && sid(err) == wserr(d.w, old(wscnt(d.w)))
  ensures out: forall(k, 0, len(in), wslog(d.w, old(wslen(d.w)) + k) == ulin(255 - in[k]))

func ULawEncoder.WriteSample(e, in) err
  prop C14
  requires noalias: ref(e.buf) != ref(in)
  modifies e.buf, elemscap(e.buf), wsmod(e.w)
  ensures one: wscnt(e.w) == old(wscnt(e.w)) + 1 && wslen(e.w) == old(wslen(e.w)) + len(in) && sid(err) == wserr(e.w, old(wscnt(e.w)))
  ensures out: forall(k, 0, len(in), uenc(wslog(e.w, old(wslen(e.w)) + k), in[k]))

func ULawDecoder.SampleRate(d) r
  prop C14
  ensures r == rateOf(d.w)
func ULawEncoder.SampleRate(e) r
  prop C14
  ensures r == rateOf(e.w)
func ULawDecoder.Close(d) err
  prop C14
  modifies wcmod(d.w)
  ensures wclosed(d.w) == old(wclosed(d.w)) + 1 && sid(err) == wcerr(d.w, old(wclosed(d.w)))
func ULawEncoder.Close(e) err
  prop C14
  modifies wcmod(e.w)
  ensures wclosed(e.w) == old(wclosed(e.w)) + 1 && sid(err) == wcerr(e.w, old(wclosed(e.w)))

func DecodeULaw(w) r
  prop C14
  requires 0 < rateOf(w) && rateOf(w) < 1000000
  modifies remod()
  ensures same: rateOf(w) == 8000 ==> unbox(r, *ULawDecoder).w == w
  ensures rate: rateOf(unbox(r, *ULawDecoder).w) == 8000

func EncodeULaw(w) r
  prop C14
  panics rateOf(w) != 8000
  ensures unbox(r, *ULawEncoder).w == w

// encoding what was decoded gives a code with the same value
lemma [C14] aroundtrip(c, b): 0 <= c && c < 256 && 0 <= b && b < 256 && aenc(b, aval(c)) ==> aval(b) == aval(c)
lemma [C14] uroundtrip(c, b): 0 <= c && c < 256 && 0 <= b && b < 256 && uenc(b, ulin(255 - c)) ==> ulin(255 - b) == ulin(255 - c)
