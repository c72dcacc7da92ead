package webm
// C24: the container library keeps the blocks it is given
ghost bkcnt 1  // blocks written so far
ghost bkts 2   // time of the i-th block in ms
ghost bklen 2
ghost bkctn 2  // its contents
ghost bkerr 2
nonnil writer.ws

iface BlockWriteCloser.Write(w, key, ts, b) n, err
  requires own: len(b) > 0 ==> fresh(b)
  modifies bkcnt(w), bkts(w), bklen(w), bkctn(w), bkerr(w)
  set bkts(w)[k] := ite(k == old(bkcnt(w)), ts, old(bkts(w, k)))
  set bklen(w)[k] := ite(k == old(bkcnt(w)), len(b), old(bklen(w, k)))
  set bkctn(w)[k] := ite(k == old(bkcnt(w)), ctn(b), old(bkctn(w, k)))
  set bkerr(w)[k] := ite(k == old(bkcnt(w)), sid(err), old(bkerr(w, k)))
  set bkcnt(w) := old(bkcnt(w)) + 1

// the header could not be written (NewWriter panics then: it has no error result)
logic webmfails Bool
extern webm.NewSimpleBlockWriter(w, tracks, opts) ws, err
  ensures err != nil ==> webmfails(sid(w))
  ensures err == nil ==> len(ws) == len(tracks) && forall(i, 0, len(ws), ws[i] != nil && bkcnt(ws[i]) == 0)

def wmok(w) = 0 <= w.dur && w.dur < 1152921504606846976 && 0 <= w.ts && w.ts < 1152921504606846976

func writer.WriteSample(w, sample) err
  prop C24
  requires wmok(w)
  modifies w.buf, elemscap(w.buf), w.ts, cperr(), bkcnt(w.ws), bkts(w.ws), bklen(w.ws), bkctn(w.ws), bkerr(w.ws)
  ensures bad: cperr() != 0 ==> sid(err) == cperr() && bkcnt(w.ws) == old(bkcnt(w.ws)) && w.ts == old(w.ts)
  ensures one: cperr() == 0 ==> bkcnt(w.ws) == old(bkcnt(w.ws)) + 1 && sid(err) == bkerr(w.ws, old(bkcnt(w.ws)))
  ensures size: cperr() == 0 ==> bklen(w.ws, old(bkcnt(w.ws))) == fsize(sample)
  ensures data: cperr() == 0 ==> forall(k, 0, fsize(sample), elemof(bkctn(w.ws, old(bkcnt(w.ws))), k) == fbyte(sample, k))
  // the time of a frame is the sum of the durations before it, in the container's unit (ms)
  ensures time: cperr() == 0 ==> bkts(w.ws, old(bkcnt(w.ws))) == quo(old(w.ts), 1000000)
  ensures step: cperr() == 0 ==> w.ts == old(w.ts) + w.dur

func writer.Close(w) err
  prop C24
  modifies wcmod(w.ws)
  ensures wclosed(w.ws) == old(wclosed(w.ws)) + 1 && sid(err) == wcerr(w.ws, old(wclosed(w.ws)))

func writer.SampleRate(w) r
  prop C24
  ensures r == w.sampleRate

func NewWriter(w, codec, channels, sampleRate, sampleDur) r
  prop C24
  maypanic webmfails(sid(w))
  ensures made: typeis(r, *writer) && unbox(r).ts == 0 && unbox(r).dur == sampleDur && unbox(r).sampleRate == sampleRate && bkcnt(unbox(r).ws) == 0
