package media
// C24: frames are opaque values that know their size and can copy themselves out
logic fsize
logic fbyte
ghost cperr 0 // error of the last CopyTo
iface Size(s) n
  ensures n == fsize(s) && 0 <= n && n < 1099511627776
iface CopyTo(s, dst) n, err
  modifies elems(dst), cperr()
  ensures err == nil ==> n == fsize(s) && n <= len(dst) && forall(k, 0, n, dst[k] == fbyte(s, k))
  set cperr() := sid(err)

// buffered output
ghost bwN 1    // bytes taken so far
ghost bwlog 2
ghost bwcalls 1
ghost bwerr 1  // what the last call reported
ghost bwflN 1  // bytes flushed so far
ghost bwferr 1
ghost bwdst 1  // the writer behind
extern bufio.NewWriter(w) b
  ensures b != nil && fresh(b) && bwN(b) == 0 && bwflN(b) == 0 && bwdst(b) == sid(w)
extern bufio.Writer.Write(b, p) n, err
  modifies bwN(b), bwlog(b), bwerr(b), bwcalls(b)
  ensures 0 <= n && n <= len(p) && (n < len(p) ==> err != nil)
  set bwlog(b)[k] := ite(k >= old(bwN(b)) && k < old(bwN(b)) + n, p[k - old(bwN(b))], old(bwlog(b, k)))
  set bwN(b) := old(bwN(b)) + n
  set bwerr(b) := sid(err)
  set bwcalls(b) := old(bwcalls(b)) + 1
extern bufio.Writer.Flush(b) err
  requires open: wclosed(bwdst(b)) == 0
  modifies bwflN(b), bwferr(b)
  ensures err == nil ==> bwflN(b) == bwN(b)
  set bwferr(b) := sid(err)

nonnil fileWriter.w, fileWriter.bw
def fwok(w) = bwdst(w.bw) == sid(w.w) && bwN(w.bw) >= 0

func NewFileWriter(w, sampleRate) r
  prop C24
  ensures made: typeis(r, *fileWriter) && unbox(r).w == w && unbox(r).sampleRate == sampleRate && fwok(unbox(r)) && bwN(unbox(r).bw) == 0

func fileWriter.WriteSample(w, sample) err
  prop C24
  requires fwok(w)
  modifies w.buf, elemscap(w.buf), cperr(), bwN(w.bw), bwlog(w.bw), bwerr(w.bw), bwcalls(w.bw)
  ensures bad: cperr() != 0 ==> sid(err) == cperr() && bwN(w.bw) == old(bwN(w.bw)) && bwcalls(w.bw) == old(bwcalls(w.bw))
  ensures one: cperr() == 0 ==> bwcalls(w.bw) == old(bwcalls(w.bw)) + 1 && sid(err) == bwerr(w.bw)
  ensures all: err == nil ==> bwN(w.bw) == old(bwN(w.bw)) + fsize(sample)
  ensures data: forall(k, 0, bwN(w.bw) - old(bwN(w.bw)), bwlog(w.bw, old(bwN(w.bw)) + k) == fbyte(sample, k))
  ensures hist: forall(k, 0, old(bwN(w.bw)), bwlog(w.bw, k) == old(bwlog(w.bw, k)))
  ensures fwok(w)

func fileWriter.Close(w) err
  prop C24
  requires fwok(w) && wclosed(w.w) == 0
  modifies wcmod(w.w), bwflN(w.bw), bwferr(w.bw)
  ensures closed: wclosed(w.w) == 1
  ensures flushed: bwferr(w.bw) == 0 ==> bwflN(w.bw) == bwN(w.bw)
  ensures err: sid(err) == ite(bwferr(w.bw) != 0, bwferr(w.bw), wcerr(w.w, 0))

func fileWriter.SampleRate(w) r
  prop C24
  ensures r == w.sampleRate
