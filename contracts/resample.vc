package media
// C22: the resampling writer. The converter (libsoxr) is external; its documented interface:
// it takes a part of the input, and appends to the output a part of what it produces.
ghost sxin 2    // samples a converter has taken
ghost sxinN 1
ghost sxout 2   // samples a converter has produced
ghost sxoutN 1
ghost sxend 1   // it was told that there is no more input
ghost sxdrained 1 // and has nothing left
ghost sxfail 1  // how often it failed
nonnil resampleWriter.w, resampleWriter.r, soxrResampler.done

func _Cfunc_soxr_process(p, in, ilen, idone, out, olen, odone) e
  prop C22
  trusted
  nilable in, idone
  modifies elems(ptrslice16(out, olen)), *idone, *odone, sxin(p), sxinN(p), sxout(p), sxoutN(p), sxend(p), sxdrained(p), sxfail(p)
  requires one: p != nil && olen > 0
  ensures done: 0 <= *odone && *odone <= olen
  ensures read: ilen > 0 ==> 0 <= *idone && *idone <= ilen
  ensures rest: forall(k, *odone, olen, ptrslice16(out, olen)[k] == old(ptrslice16(out, olen)[k]))
  ensures drain: ilen == 0 && *odone < olen ==> sxdrained(p) == 1
  set sxin(p)[k] := ite(ilen > 0 && k >= old(sxinN(p)) && k < old(sxinN(p)) + *idone, old(ptrslice16(in, ilen)[k - old(sxinN(p))]), old(sxin(p, k)))
  set sxinN(p) := old(sxinN(p)) + ite(ilen > 0, *idone, 0)
  set sxout(p)[k] := ite(k >= old(sxoutN(p)) && k < old(sxoutN(p)) + *odone, ptrslice16(out, olen)[k - old(sxoutN(p))], old(sxout(p, k)))
  set sxoutN(p) := old(sxoutN(p)) + *odone
  set sxfail(p) := old(sxfail(p)) + ite(e != nil, 1, 0)
  set sxend(p) := ite(ilen == 0, 1, old(sxend(p)))

func _Cfunc_free(p)
  prop C22
  trusted
func _Cfunc_GoString(p) s
  prop C22
  trusted
  ensures text: s != "" && s != "0"
func _Cfunc_soxr_delete(p)
  prop C22
  trusted

func soxrErr(e) err
  prop C22
  nilable e
  ensures none: e == nil <==> err == nil

// what the converter has taken and produced during this call
def took(p) = sxinN(p) - old(sxinN(p))
def gave(p) = sxoutN(p) - old(sxoutN(p))

func soxrResampler.Resample(r, out, in) res, n, err
  prop C22
  requires rates: r.srcRate > 0 && r.dstRate > 0 && r.srcRate < 1000000 && r.dstRate < 1000000 && r.maxIn >= 0 && r.maxIn < 1099511627776 && len(in) < 1099511627776
  requires apart: len(in) > 0 && cap(out) > 0 ==> ref(in) != ref(out)
  modifies r.maxIn, elemscap(out), sxin(r.ptr), sxinN(r.ptr), sxout(r.ptr), sxoutN(r.ptr), sxend(r.ptr), sxdrained(r.ptr), sxfail(r.ptr)
  ensures closed: r.ptr == nil || *r.done == 1 ==> err != nil && took(r.ptr) == 0 && gave(r.ptr) == 0 && n == 0 && len(res) == len(out)
  ensures kept: len(res) >= len(out) && forall(k, 0, len(out), res[k] == old(out[k]))
  ensures new: err == nil ==> n == gave(r.ptr) && len(res) == len(out) + n && forall(k, 0, n, res[len(out) + k] == sxout(r.ptr, old(sxoutN(r.ptr)) + k))
  ensures read: took(r.ptr) >= 0 && took(r.ptr) <= len(in) && forall(k, 0, took(r.ptr), sxin(r.ptr, old(sxinN(r.ptr)) + k) == old(in[k]))
  ensures hist: forall(k, 0, old(sxinN(r.ptr)), sxin(r.ptr, k) == old(sxin(r.ptr, k))) && forall(k, 0, old(sxoutN(r.ptr)), sxout(r.ptr, k) == old(sxout(r.ptr, k)))
  // the output space: a frame's worth, more when there is nothing to convert
  ensures all: err == nil && n < max(1, quo(len(in) * r.dstRate, r.srcRate)) ==> took(r.ptr) == len(in)
  ensures allfull: err == nil && n >= max(1, quo(len(in) * r.dstRate, r.srcRate)) ==> took(r.ptr) == len(in)
  ensures drained: err == nil && len(in) == 0 && n == 0 ==> sxdrained(r.ptr) == 1 && sxend(r.ptr) == 1
  ensures ok: err == nil ==> r.ptr != nil && *r.done == 0
  ensures fails: sxfail(r.ptr) >= old(sxfail(r.ptr)) && (r.ptr != nil && *r.done == 0 && sxfail(r.ptr) == old(sxfail(r.ptr)) ==> err == nil) && (sxfail(r.ptr) > old(sxfail(r.ptr)) ==> err != nil)
  ensures own: ref(res) == ref(out) && off(res) == off(out) && cap(res) == cap(out) || fresh(res)
  ensures maxin: r.maxIn == ite(r.ptr == nil || *r.done == 1, old(r.maxIn), max(old(r.maxIn), len(in)))
  loop fails: sxfail(r.ptr) == old(sxfail(r.ptr))
  loop total: $i == gave(r.ptr) && took(r.ptr) >= 0
  loop first: len(in) == 0 ==> $i == 0
  loop dst: ref($s) == ref($d) && off($s) == off($d) + len($d) + $i && len($s) + $i + len($d) <= cap($d)
  loop in: ref($s) == ref(in) && off($s) + len($s) == off(in) + len(in) && len($s) + took(r.ptr) == len(in)
  loop read: forall(k, 0, took(r.ptr), sxin(r.ptr, old(sxinN(r.ptr)) + k) == old(in[k]))
  loop hist: forall(k, 0, old(sxinN(r.ptr)), sxin(r.ptr, k) == old(sxin(r.ptr, k))) && forall(k, 0, old(sxoutN(r.ptr)), sxout(r.ptr, k) == old(sxout(r.ptr, k)))
  loop room: len($s) + $i == ite(quo(len(in) * r.dstRate, r.srcRate) == 0, max(max(quo(r.maxIn * r.dstRate, r.srcRate), cap(out) - len(out)), 1024), quo(len(in) * r.dstRate, r.srcRate))
  loop data: forall(k, 0, gave(r.ptr), $d[len($d) + k] == sxout(r.ptr, old(sxoutN(r.ptr)) + k))
  loop kept: forall(k, 0, len(out), $d[k] == old(out[k]))

guard resampleWriter.mu: buf, dstFrame

func soxrCleanup(done, p)
  prop C22
  modifies *done
  ensures once: *done == 1

func soxrResampler.Close(r) err
  prop C22
  modifies r.ptr, *r.done
  ensures closed: r.ptr == nil && err == nil

// ---- the writer: what was converted is either forwarded or waits in buf
ghost rbase 1 // how many samples the destination had been given when the writer was made
def rrates(w) = w.srcRate > 0 && w.dstRate > 0 && w.srcRate < 1000000 && w.dstRate < 1000000 && w.r.srcRate == w.srcRate && w.r.dstRate == w.dstRate
def rok(w) = w.buffer == 0 && rrates(w) && w.dstFrame >= 0 && w.dstFrame < 1152921504606846976 && w.r.maxIn >= 0 && w.r.maxIn < 1099511627776 && rbase(w) >= 0 && wslen(w.w) >= rbase(w) && wscnt(w.w) >= 0
// everything the converter produced was forwarded, but for what waits
def rcnt(w, p) = wslen(w.w) - rbase(w) + len(w.buf) == sxoutN(p) && sxoutN(p) >= 0 && sxinN(p) >= 0
def rlog(w, p) = forall(k, rbase(w), wslen(w.w), wslog(w.w, k) == sxout(p, k - rbase(w)))
def rwait(w, p) = forall(k, sxoutN(p) - len(w.buf), sxoutN(p), w.buf[k - (sxoutN(p) - len(w.buf))] == sxout(p, k))
def rinv(w, p) = rcnt(w, p) && rlog(w, p) && rwait(w, p)
// how many samples were forwarded by this call
def fwd(w) = wslen(w.w) - old(wslen(w.w))

func resampleWriter.flush(w, minSize) err
  prop C22
  holds w.mu
  requires w.dstFrame >= 0 && minSize >= 0
  modifies w.buf, elems(w.buf), wsmod(w.w)
  ensures count: fwd(w) + len(w.buf) == old(len(w.buf)) && fwd(w) >= 0
  ensures data: forall(k, 0, fwd(w), wslog(w.w, old(wslen(w.w)) + k) == old(w.buf[k]))
  ensures hist: forall(k, 0, old(wslen(w.w)), wslog(w.w, k) == old(wslog(w.w, k)))
  ensures rest: forall(k, fwd(w), fwd(w) + len(w.buf), w.buf[k - fwd(w)] == old(w.buf[k]))
  ensures less: len(w.buf) == 0 || len(w.buf) < minSize
  ensures frames: w.dstFrame > 0 && minSize >= w.dstFrame ==> forall(i, old(wscnt(w.w)), wscnt(w.w), wsfl(w.w, i) == w.dstFrame)
  ensures whole: w.dstFrame > 0 ==> forall(i, old(wscnt(w.w)), wscnt(w.w), 0 < wsfl(w.w, i) && wsfl(w.w, i) <= w.dstFrame)
  ensures err: (err == nil) <==> forall(i, old(wscnt(w.w)), wscnt(w.w), wserr(w.w, i) == 0)
  ensures same: ref(w.buf) == old(ref(w.buf)) && off(w.buf) == old(off(w.buf)) && cap(w.buf) == old(cap(w.buf)) && wscnt(w.w) >= old(wscnt(w.w))
  loop same: ref(w.buf) == old(ref(w.buf)) && off(w.buf) == old(off(w.buf)) && cap(w.buf) == old(cap(w.buf))
  loop count: fwd(w) + len(w.buf) == old(len(w.buf)) && fwd(w) >= 0 && wscnt(w.w) >= old(wscnt(w.w))
  loop data: forall(k, 0, fwd(w), wslog(w.w, old(wslen(w.w)) + k) == old(w.buf[k]))
  loop hist: forall(k, 0, old(wslen(w.w)), wslog(w.w, k) == old(wslog(w.w, k)))
  loop rest: forall(k, fwd(w), fwd(w) + len(w.buf), w.buf[k - fwd(w)] == old(w.buf[k]))
  loop frames: w.dstFrame > 0 && minSize >= w.dstFrame ==> forall(i, old(wscnt(w.w)), wscnt(w.w), wsfl(w.w, i) == w.dstFrame)
  loop whole: w.dstFrame > 0 ==> forall(i, old(wscnt(w.w)), wscnt(w.w), 0 < wsfl(w.w, i) && wsfl(w.w, i) <= w.dstFrame)
  loop err: ($e == nil) <==> forall(i, old(wscnt(w.w)), wscnt(w.w), wserr(w.w, i) == 0)

func resampleSize(dstSampleRate, srcSampleRate, srcSize) r
  prop C22
  requires dstSampleRate > 0 && srcSampleRate > 0 && srcSize >= 0 && dstSampleRate < 1000000 && srcSampleRate < 1000000 && srcSize < 1099511627776
  ensures size: r == ite(dstSampleRate < srcSampleRate, quo(srcSize, quo(srcSampleRate, dstSampleRate)), srcSize * quo(dstSampleRate, srcSampleRate))
  ensures range: 0 <= r && r < 1152921504606846976

// the converter of this writer is in use
def open(w) = w.r.ptr != nil && *w.r.done == 0

func resampleWriter.WriteSample(w, data) err
  prop C22
  requires rok(w) && len(data) < 1099511627776
  requires apart: ref(data) != ref(w.buf) || cap(w.buf) == 0
  requires inv: rinv(w, w.r.ptr)
  modifies w.buf, elemscap(w.buf), w.dstFrame, w.r.maxIn, wsmod(w.w), sxin(w.r.ptr), sxinN(w.r.ptr), sxout(w.r.ptr), sxoutN(w.r.ptr), sxend(w.r.ptr), sxdrained(w.r.ptr), sxfail(w.r.ptr)
  ensures empty: len(data) == 0 ==> err == nil && wscnt(w.w) == old(wscnt(w.w)) && len(w.buf) == old(len(w.buf)) && took(w.r.ptr) == 0
  ensures closed: len(data) > 0 && !open(w) ==> err != nil && wscnt(w.w) == old(wscnt(w.w)) && took(w.r.ptr) == 0
  ensures cnt: sxfail(w.r.ptr) == old(sxfail(w.r.ptr)) ==> rcnt(w, w.r.ptr)
  ensures log: sxfail(w.r.ptr) == old(sxfail(w.r.ptr)) ==> rlog(w, w.r.ptr)
  ensures wait: sxfail(w.r.ptr) == old(sxfail(w.r.ptr)) ==> rwait(w, w.r.ptr)
  ensures rok(w)
  ensures in: took(w.r.ptr) >= 0 && took(w.r.ptr) <= len(data) && forall(k, 0, took(w.r.ptr), sxin(w.r.ptr, old(sxinN(w.r.ptr)) + k) == old(data[k]))
  ensures allin: open(w) && sxfail(w.r.ptr) == old(sxfail(w.r.ptr)) && gave(w.r.ptr) < max(1, quo(len(data) * w.dstRate, w.srcRate)) ==> took(w.r.ptr) == len(data)
  ensures frames: forall(i, old(wscnt(w.w)), wscnt(w.w), w.dstFrame > 0 ==> wsfl(w.w, i) == w.dstFrame)
  ensures less: len(data) > 0 && open(w) && sxfail(w.r.ptr) == old(sxfail(w.r.ptr)) ==> len(w.buf) == 0 || len(w.buf) < w.dstFrame
  ensures size: len(data) > 0 && open(w) && sxfail(w.r.ptr) == old(sxfail(w.r.ptr)) ==> w.dstFrame == max(old(w.dstFrame), ite(w.dstRate < w.srcRate, quo(len(data), quo(w.srcRate, w.dstRate)), len(data) * quo(w.dstRate, w.srcRate)))
  ensures err: sxfail(w.r.ptr) == old(sxfail(w.r.ptr)) && open(w) ==> ((err == nil) <==> forall(i, old(wscnt(w.w)), wscnt(w.w), wserr(w.w, i) == 0))
  ensures conv: sxfail(w.r.ptr) > old(sxfail(w.r.ptr)) ==> err != nil

func resampleWriter.Close(w) err
  prop C22
  requires rok(w)
  requires inv: rinv(w, w.r.ptr)
  modifies w.buf, elemscap(w.buf), w.r.maxIn, w.r.ptr, *w.r.done, wsmod(w.w), wcmod(w.w), sxin(w.r.ptr), sxinN(w.r.ptr), sxout(w.r.ptr), sxoutN(w.r.ptr), sxend(w.r.ptr), sxdrained(w.r.ptr), sxfail(w.r.ptr)
  ensures again: !old(open(w)) ==> err != nil && wclosed(w.w) == old(wclosed(w.w)) && wscnt(w.w) == old(wscnt(w.w))
  ensures drained: old(open(w)) && sxfail(old(w.r.ptr)) == old(sxfail(w.r.ptr)) ==> sxend(old(w.r.ptr)) == 1 && sxdrained(old(w.r.ptr)) == 1 && took(old(w.r.ptr)) == 0
  ensures all: old(open(w)) && sxfail(old(w.r.ptr)) == old(sxfail(w.r.ptr)) ==> len(w.buf) == 0 && wslen(w.w) - rbase(w) == sxoutN(old(w.r.ptr))
  ensures log: old(open(w)) && sxfail(old(w.r.ptr)) == old(sxfail(w.r.ptr)) ==> rlog(w, old(w.r.ptr))
  ensures closed: old(open(w)) && sxfail(old(w.r.ptr)) == old(sxfail(w.r.ptr)) ==> wclosed(w.w) == old(wclosed(w.w)) + 1 && wclat(w.w) == wslen(w.w) && w.r.ptr == nil
  ensures whole: old(open(w)) && w.dstFrame > 0 ==> forall(i, old(wscnt(w.w)), wscnt(w.w), 0 < wsfl(w.w, i) && wsfl(w.w, i) <= w.dstFrame)
  ensures err: old(open(w)) && sxfail(old(w.r.ptr)) == old(sxfail(w.r.ptr)) ==> sid(err) == wcerr(w.w, old(wclosed(w.w)))
  loop cnt: rcnt(w, w.r.ptr)
  loop log: rlog(w, w.r.ptr)
  loop wait: rwait(w, w.r.ptr)
  loop end: $n == 0 ==> sxend(w.r.ptr) == 1 && sxdrained(w.r.ptr) == 1
  loop open: open(w) || $n == -1
  loop rok(w)
  loop buf: ref(w.buf) == old(ref(w.buf)) && off(w.buf) == old(off(w.buf)) && cap(w.buf) == old(cap(w.buf)) || fresh(w.buf)
  loop same: took(w.r.ptr) == 0 && sxfail(w.r.ptr) == old(sxfail(w.r.ptr))
  ensures conv: sxfail(old(w.r.ptr)) > old(sxfail(w.r.ptr)) ==> err != nil

func resampleWriter.SampleRate(w) r
  prop C22
  ensures r == w.srcRate

// ---- construction
ghost sxirate 1
ghost sxorate 1
func _Cfunc_soxr_io_spec(a, b) s
  prop C22
  trusted
func _Cfunc_soxr_quality_spec(a, b) s
  prop C22
  trusted
func _Cfunc_soxr_runtime_spec(a) s
  prop C22
  trusted
func _Cfunc_soxr_create(irate, orate, channels, e, io, q, rt) p
  prop C22
  trusted
  modifies *e
  requires mono: channels == 1
  ensures made: exists(a b, irate == real(a) && orate == real(b) && a > 0 && b > 0 && a < 1000000 && b < 1000000) ==> *e == nil
  ensures new: *e == nil ==> p != nil && fresh(p) && sxinN(p) == 0 && sxoutN(p) == 0 && sxend(p) == 0 && sxdrained(p) == 0 && sxfail(p) == 0 && real(sxirate(p)) == irate && real(sxorate(p)) == orate

func newSoxr(dstRate, srcRate, quality) r, err
  prop C22
  requires dstRate > 0 && srcRate > 0 && dstRate < 1000000 && srcRate < 1000000
  ensures new: err == nil && fresh(r) && r.ptr != nil && *r.done == 0 && fresh(r.ptr) && r.maxIn == 0
  ensures rates: r.srcRate == srcRate && r.dstRate == dstRate && sxirate(r.ptr) == srcRate && sxorate(r.ptr) == dstRate
  ensures empty: sxinN(r.ptr) == 0 && sxoutN(r.ptr) == 0 && sxend(r.ptr) == 0 && sxfail(r.ptr) == 0

func newResampleWriter(w, sampleRate) r
  prop C22
  requires 0 < sampleRate && sampleRate < 1000000 && 0 < rateOf(w) && rateOf(w) < 1000000
  modifies rbase()
  ensures type: typeis(r, *resampleWriter) && fresh(unbox(r, *resampleWriter))
  ensures open: open(unbox(r, *resampleWriter))
  // srcRate, which SampleRate reports, is set here only
  assumes rate: rateOf(r) == unbox(r, *resampleWriter).srcRate
  ensures dst: unbox(r, *resampleWriter).w == w && unbox(r, *resampleWriter).srcRate == sampleRate && unbox(r, *resampleWriter).dstRate == rateOf(w)
  ensures conv: sxirate(unbox(r, *resampleWriter).r.ptr) == sampleRate && sxorate(unbox(r, *resampleWriter).r.ptr) == rateOf(w)
  set rbase(unbox(r, *resampleWriter)) := wslen(w)
  ensures ready: wslen(w) >= 0 && wscnt(w) >= 0 ==> rok(unbox(r, *resampleWriter)) && open(unbox(r, *resampleWriter)) && rinv(unbox(r, *resampleWriter), unbox(r, *resampleWriter).r.ptr)

func DumpWriterPCM16(name, w) r
  prop C22
  trusted
  ensures rate: r != nil && rateOf(r) == rateOf(w)

func ResampleWriter$1()
  prop C22
  inline

modset remod() = rbase(), media.resampleID
func ResampleWriter(w, sampleRate) w2
  prop C17 C22
  requires 0 < sampleRate && sampleRate < 1000000 && 0 < rateOf(w) && rateOf(w) < 1000000
  modifies remod()
  ensures same: rateOf(w) == sampleRate ==> w2 == w
  ensures rate: w2 != nil && rateOf(w2) == sampleRate
  ensures conv: rateOf(w) != sampleRate && !resampleDumpToFile ==> typeis(w2, *resampleWriter) && fresh(unbox(w2, *resampleWriter)) && unbox(w2, *resampleWriter).w == w && open(unbox(w2, *resampleWriter))

// the one-shot conversion: closes its writer, so the result is everything the converter produced
func resampleBuffer(dst, dstSampleRate, src, srcSampleRate) r
  prop C22
  trusted
  modifiesany

func Resample(dst, dstSampleRate, src, srcSampleRate) r
  prop C22
  modifiesany
  ensures same: dstSampleRate == srcSampleRate ==> len(r) == len(dst) + len(src) && forall(k, 0, len(dst), r[k] == old(dst[k])) && forall(k, 0, len(src), r[len(dst) + k] == old(src[k]))

func DumpWriter(ext, name, w) r
  prop C23
  trusted
  ensures rate: r != nil && rateOf(r) == rateOf(w)
