package opus
// C23: the codec libraries are external; their documented interface is assumed
logic opusCh       // the channel count an opus packet announces in its first byte
ghost opch 1       // channels a decoder / encoder was made for
ghost oprate 1     // and its sample rate
ghost opinN 1      // the input given last
ghost opin 2
ghost opoutN 1     // the output produced last: samples per channel (decoder), bytes (encoder)
ghost opout 2
ghost opcalls 1
ghost operr 1      // the error reported last
nonnil decoder.w, decoder.logger, encoder.w, encoder.enc

func _Cfunc_opus_packet_get_nb_channels(p) r
  prop C23
  trusted
  ensures r == opusCh(*p) && 1 <= r && r <= 2

extern opus.v2.NewDecoder(rate, channels) d, err
  ensures err == nil ==> d != nil && fresh(d) && opch(d) == channels && oprate(d) == rate && opcalls(d) == 0

extern opus.v2.Decoder.Decode(d, data, pcm) n, err
  modifies elemscap(pcm), opin(d), opinN(d), opout(d), opoutN(d), opcalls(d), operr(d)
  ensures room: err == nil ==> 0 <= n && n * opch(d) <= cap(pcm)
  set opcalls(d) := old(opcalls(d)) + 1
  set opinN(d) := len(data)
  set opin(d)[k] := ite(k >= 0 && k < len(data), data[k], 0)
  set opoutN(d) := n
  set opout(d)[k] := ite(k >= 0 && k < cap(pcm), pcm[k], 0)
  set operr(d) := sid(err)

extern opus.v2.NewEncoder(rate, channels, app) e, err
  ensures err == nil ==> e != nil && fresh(e) && opch(e) == channels && oprate(e) == rate && opcalls(e) == 0

extern opus.v2.Encoder.Encode(e, pcm, data) n, err
  modifies elemscap(data), opin(e), opinN(e), opout(e), opoutN(e), opcalls(e), operr(e)
  ensures room: err == nil ==> 0 <= n && n <= cap(data)
  set opcalls(e) := old(opcalls(e)) + 1
  set opinN(e) := len(pcm)
  set opin(e)[k] := ite(k >= 0 && k < len(pcm), pcm[k], 0)
  set opoutN(e) := n
  set opout(e)[k] := ite(k >= 0 && k < cap(data), data[k], 0)
  set operr(e) := sid(err)

func Sample.Size(s) r
  prop C23
  ensures r == len(s)
func Sample.CopyTo(s, dst) n, err
  prop C23
  modifies elems(dst)
  ensures short: len(dst) < len(s) ==> n == 0 && err == io.ErrShortBuffer
  ensures ok: len(dst) >= len(s) ==> n == len(s) && err == nil && forall(k, 0, len(s), dst[k] == old(s[k]))
  ensures rest: forall(k, n, len(dst), dst[k] == old(dst[k]))

// decoder: the codec in use matches the last packet, and the scratch buffer fits it
def dcodec(d) = d.dec != nil ==> opch(d.dec) == d.lastChannels && cap(d.buf) == quo(rateOf(d.w), 50) * d.lastChannels && len(d.buf) == cap(d.buf) && (d.lastChannels == 1 || d.lastChannels == 2) && oprate(d.dec) == rateOf(d.w)
def dok(d) = dcodec(d) && (d.targetChannels == 1 || d.targetChannels == 2) && rateOf(d.w) >= 0 && rateOf(d.w) < 1000000 && 0 <= d.successiveErrorCount && d.successiveErrorCount <= 5 && (cap(d.buf) > 0 && cap(d.buf2) > 0 ==> ref(d.buf) != ref(d.buf2))

func Decode(w, targetChannels, logger) r, err
  prop C23
  requires 0 <= rateOf(w) && rateOf(w) < 1000000
  ensures bad: (err == nil) <==> targetChannels == 1 || targetChannels == 2
  ensures made: err == nil ==> typeis(r, *decoder) && unbox(r, *decoder).w == w && unbox(r, *decoder).targetChannels == targetChannels && dok(unbox(r, *decoder)) && unbox(r, *decoder).successiveErrorCount == 0

func decoder.resetForSample(d, in) ch, err
  prop C23
  requires len(in) > 0 && dok(d)
  modifies d.dec, d.buf, d.lastChannels
  ensures ok: err == nil ==> ch == opusCh(in[0]) && d.dec != nil && d.lastChannels == ch
  ensures kept: old(d.dec) != nil && old(d.lastChannels) == opusCh(in[0]) ==> err == nil && d.dec == old(d.dec) && ref(d.buf) == old(ref(d.buf)) && cap(d.buf) == old(cap(d.buf)) && off(d.buf) == old(off(d.buf))
  ensures new: old(d.dec) != nil && old(d.lastChannels) == opusCh(in[0]) || err != nil || fresh(d.dec) && fresh(d.buf) && opcalls(d.dec) == 0
  ensures bad: err != nil ==> ref(d.buf) == old(ref(d.buf)) && cap(d.buf) == old(cap(d.buf)) && off(d.buf) == old(off(d.buf)) && d.dec == old(d.dec) && d.lastChannels == old(d.lastChannels)
  ensures dok(d)

// a corrupt packet
def invalid(d) = boolfn("errors.Is", operr(d.dec), box(opus.ErrInvalidPacket))
def nch(in) = opusCh(in[0])
// the codec was called for this packet (otherwise no codec could be made)
def ran(d) = opcalls(d.dec) == 1 + ite(d.dec == old(d.dec), old(opcalls(d.dec)), 0) && d.dec != nil

func decoder.WriteSample(d, in) err
  prop C23
  requires dok(d)
  modifies d.dec, d.buf, d.buf2, elemscap(d.buf), elemscap(d.buf2), d.lastChannels, d.successiveErrorCount, wsmod(d.w), opin(d.dec), opinN(d.dec), opout(d.dec), opoutN(d.dec), opcalls(d.dec), operr(d.dec)
  ensures empty: len(in) == 0 ==> err == nil && wscnt(d.w) == old(wscnt(d.w)) && d.successiveErrorCount == old(d.successiveErrorCount)
  ensures dok(d)
  ensures codec: len(in) > 0 && err == nil ==> ran(d) && d.lastChannels == nch(in) && opch(d.dec) == nch(in) && opinN(d.dec) == len(in) && forall(k, 0, len(in), opin(d.dec, k) == old(in[k]))
  ensures norun: len(in) > 0 && !ran(d) ==> err != nil
  ensures one: wscnt(d.w) == old(wscnt(d.w)) + ite(len(in) > 0 && ran(d) && operr(d.dec) == 0, 1, 0)
  ensures size: len(in) > 0 && ran(d) && operr(d.dec) == 0 ==> wsfl(d.w, old(wscnt(d.w))) == opoutN(d.dec) * d.targetChannels && sid(err) == wserr(d.w, old(wscnt(d.w)))
  ensures same: len(in) > 0 && ran(d) && operr(d.dec) == 0 && nch(in) == d.targetChannels ==> forall(k, 0, opoutN(d.dec) * d.targetChannels, wslog(d.w, old(wslen(d.w)) + k) == opout(d.dec, k))
  ensures stereo: len(in) > 0 && ran(d) && operr(d.dec) == 0 && nch(in) < d.targetChannels ==> forall(k, 0, opoutN(d.dec), wslog(d.w, old(wslen(d.w)) + 2 * k) == opout(d.dec, k) && wslog(d.w, old(wslen(d.w)) + 2 * k + 1) == opout(d.dec, k))
  ensures mono: len(in) > 0 && ran(d) && operr(d.dec) == 0 && nch(in) > d.targetChannels ==> forall(k, 0, opoutN(d.dec), wslog(d.w, old(wslen(d.w)) + k) == quo(opout(d.dec, 2 * k) + opout(d.dec, 2 * k + 1), 2))
  ensures good: len(in) > 0 && ran(d) && operr(d.dec) == 0 ==> d.successiveErrorCount == 0
  ensures skip: len(in) > 0 && ran(d) && operr(d.dec) != 0 && invalid(d) && old(d.successiveErrorCount) < 5 ==> err == nil && d.successiveErrorCount == old(d.successiveErrorCount) + 1
  ensures report: len(in) > 0 && ran(d) && operr(d.dec) != 0 && (!invalid(d) || old(d.successiveErrorCount) >= 5) ==> sid(err) == operr(d.dec)

func decoder.Close(d) err
  prop C23
  modifies wcmod(d.w)
  ensures wclosed(d.w) == old(wclosed(d.w)) + 1 && sid(err) == wcerr(d.w, old(wclosed(d.w)))
func decoder.SampleRate(d) r
  prop C23
  ensures r == rateOf(d.w)

func Encode(w, channels, logger) r, err
  prop C23
  requires 0 <= rateOf(w) && rateOf(w) < 1000000 && 0 <= channels && channels < 256
  ensures made: err == nil ==> typeis(r, *encoder) && unbox(r, *encoder).w == w && opch(unbox(r, *encoder).enc) == channels && oprate(unbox(r, *encoder).enc) == rateOf(w) && cap(unbox(r, *encoder).buf) == quo(rateOf(w), 50) * channels

func encoder.WriteSample(e, in) err
  prop C23
  modifies elemscap(e.buf), wsmod(e.w), opin(e.enc), opinN(e.enc), opout(e.enc), opoutN(e.enc), opcalls(e.enc), operr(e.enc)
  ensures codec: opcalls(e.enc) == old(opcalls(e.enc)) + 1 && opinN(e.enc) == len(in) && forall(k, 0, len(in), opin(e.enc, k) == old(in[k]))
  ensures bad: operr(e.enc) != 0 ==> sid(err) == operr(e.enc) && wscnt(e.w) == old(wscnt(e.w))
  ensures one: operr(e.enc) == 0 ==> wscnt(e.w) == old(wscnt(e.w)) + 1 && wsfl(e.w, old(wscnt(e.w))) == opoutN(e.enc) && sid(err) == wserr(e.w, old(wscnt(e.w)))
  ensures data: operr(e.enc) == 0 ==> forall(k, 0, opoutN(e.enc), wslog(e.w, old(wslen(e.w)) + k) == opout(e.enc, k))
func encoder.Close(e) err
  prop C23
  modifies wcmod(e.w)
  ensures wclosed(e.w) == old(wclosed(e.w)) + 1 && sid(err) == wcerr(e.w, old(wclosed(e.w)))
func encoder.SampleRate(e) r
  prop C23
  ensures r == rateOf(e.w)
