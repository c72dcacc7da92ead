package media
// Destinations of samples: what a writer was given. Assumed of every implementation: it does not
// write to the caller's memory and does not keep the slice (frames are copied before return).
ghost wscnt 1   // number of WriteSample calls
ghost wslen 1   // total number of samples given so far
ghost wslog 2   // all samples given so far, concatenated
ghost wspos 2   // start position of the i-th frame in wslog
ghost wsfl 2    // length of the i-th frame
ghost wsval 2   // identity of the i-th frame (for opaque sample types)
ghost wsctn 2   // contents of the i-th frame
ghost wserr 2   // error returned by the i-th call
ghost wclosed 1 // number of Close calls
ghost wcerr 2   // error returned by the i-th Close
ghost wclat 1   // how many samples it had been given when it was closed last
modset wsmod(w) = wscnt(w), wslen(w), wslog(w), wspos(w), wsfl(w), wsval(w), wsctn(w), wserr(w)
modset wcmod(w) = wclosed(w), wcerr(w), wclat(w)

iface WriteSample(w, s) err
  set wslog(w)[k] := ite(k >= old(wslen(w)) && k < old(wslen(w)) + slen(s), sat(s, k - old(wslen(w))), old(wslog(w, k)))
  set wspos(w)[k] := ite(k == old(wscnt(w)), old(wslen(w)), old(wspos(w, k)))
  set wsfl(w)[k] := ite(k == old(wscnt(w)), slen(s), old(wsfl(w, k)))
  set wsval(w)[k] := ite(k == old(wscnt(w)), sid(s), old(wsval(w, k)))
  set wsctn(w)[k] := ite(k == old(wscnt(w)), ctn(s), old(wsctn(w, k)))
  set wserr(w)[k] := ite(k == old(wscnt(w)), sid(err), old(wserr(w, k)))
  set wslen(w) := old(wslen(w)) + slen(s)
  set wscnt(w) := old(wscnt(w)) + 1

iface Close(w) err
  set wcerr(w)[k] := ite(k == old(wclosed(w)), sid(err), old(wcerr(w, k)))
  set wclat(w) := wslen(w)
  set wclosed(w) := old(wclosed(w)) + 1

logic rateOf
iface SampleRate(w) r
  ensures r == rateOf(w)

// tickers: how many ticks were received, and the period of the last ticker made
ghost ticks 0
ghost tickPer 0
extern time.NewTicker(d) t
  panics d <= 0
  modifies tickPer()
  ensures fresh(t)
  set tickPer() := d
iface Ticker.C.recv(p, c) v, ok
  modifies ticks()
  set ticks() := old(ticks()) + 1
// what a context reported as its error last
ghost ctxerr 1
ghost ctxdone 1
iface Context.Done.recv(c, ch) v, ok
  modifies ctxdone(c)
  set ctxdone(c) := 1
iface context.Context.Err(c) err
  ensures ctxdone(c) == 1 ==> err != nil
  modifies ctxerr(c)
  set ctxerr(c) := sid(err)
