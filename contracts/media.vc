package media
// C16 FullFrames, C17 SwitchWriter / MultiWriter, C15 PCM helpers

nonnil frameBuffer.w
guard frameBuffer.mu: buf

// ---- C16
def fbok(b) = b.frameSize > 0
// the samples waiting for output, then the new ones
def pend(b, in, k) = ite(k < len(b.buf), b.buf[k], in[k - len(b.buf)])
def fed(b) = wslen(b.w) - old(wslen(b.w))

func FullFrames(w, frameSize) r
  prop C16
  panics frameSize <= 0
  ensures type: typeis(r, *frameBuffer)
  ensures new: fresh(unbox(r)) && unbox(r).w == w && unbox(r).frameSize == frameSize && len(unbox(r).buf) == 0

func frameBuffer.WriteSample(b, in) err
  prop C16
  requires fbok(b)
  modifies b.buf, elemscap(b.buf), wsmod(b.w)
  ensures count: 0 <= fed(b) && fed(b) + len(b.buf) == old(len(b.buf)) + len(in)
  ensures data: forall(k, 0, fed(b), wslog(b.w, old(wslen(b.w)) + k) == old(pend(b, in, k)))
  ensures hist: forall(k, 0, old(wslen(b.w)), wslog(b.w, k) == old(wslog(b.w, k)))
  ensures rest: forall(k, fed(b), fed(b) + len(b.buf), b.buf[k - fed(b)] == old(pend(b, in, k)))
  ensures frames: fed(b) == (wscnt(b.w) - old(wscnt(b.w))) * b.frameSize && forall(i, old(wscnt(b.w)), wscnt(b.w), wsfl(b.w, i) == b.frameSize)
  ensures whole: err == nil ==> len(b.buf) < b.frameSize
  ensures err: err != nil ==> wscnt(b.w) > old(wscnt(b.w)) && sid(err) == wserr(b.w, wscnt(b.w) - 1)
  ensures noerr: forall(i, old(wscnt(b.w)), wscnt(b.w) - ite(err != nil, 1, 0), wserr(b.w, i) == 0)
  loop win: ref($s) == ref(b.buf) && off($s) + len($s) == off(b.buf) + len(b.buf) && len($s) <= len(b.buf) && wslen(b.w) == atloop(wslen(b.w)) + len(b.buf) - len($s)
  loop cnt: wscnt(b.w) >= atloop(wscnt(b.w)) && (wscnt(b.w) - atloop(wscnt(b.w))) * b.frameSize == len(b.buf) - len($s)
  loop data: forall(k, 0, len(b.buf) - len($s), wslog(b.w, atloop(wslen(b.w)) + k) == atloop(b.buf[k]))
  loop hist: forall(k, 0, atloop(wslen(b.w)), wslog(b.w, k) == atloop(wslog(b.w, k)))
  loop len: forall(i, atloop(wscnt(b.w)), wscnt(b.w), wsfl(b.w, i) == b.frameSize)
  loop noerr: forall(i, atloop(wscnt(b.w)), wscnt(b.w), wserr(b.w, i) == 0)

func frameBuffer.Close(b) err
  prop C16
  requires fbok(b) && len(b.buf) < b.frameSize
  modifies b.buf, elemscap(b.buf), wsmod(b.w), wcmod(b.w)
  ensures data: wslen(b.w) == old(wslen(b.w)) + old(len(b.buf)) && forall(k, 0, old(len(b.buf)), wslog(b.w, old(wslen(b.w)) + k) == old(b.buf[k]))
  ensures one: wscnt(b.w) == old(wscnt(b.w)) + ite(old(len(b.buf)) > 0, 1, 0)
  ensures closed: wclosed(b.w) == old(wclosed(b.w)) + 1 && wclat(b.w) == wslen(b.w)
  ensures err: (err == nil) <==> wcerr(b.w, old(wclosed(b.w))) == 0 && (old(len(b.buf)) > 0 ==> wserr(b.w, old(wscnt(b.w))) == 0)
  loop win: ref($s) == ref(b.buf) && off($s) + len($s) == off(b.buf) + len(b.buf) && len($s) <= len(b.buf) && wslen(b.w) == atloop(wslen(b.w)) + len(b.buf) - len($s)
  loop same: len($s) == atloop(len(b.buf)) && wscnt(b.w) == atloop(wscnt(b.w))

// ---- C17
def swrate(s) = s.sampleRate

func NewSwitchWriter(sampleRate) r
  prop C17
  requires range: -2147483648 <= sampleRate && sampleRate <= 2147483647
  panics sampleRate == 0
  ensures fresh(r)
  ensures rate: s32(r) == ite(sampleRate < 0, -1, sampleRate)
  ensures empty: r.ptr == nil && !swoff(r)

def s32(r) = r.sampleRate
def swoff(r) = r.disabled == 1

func SwitchWriter.Enable(s)
  prop C17
  modifies s.disabled
  ensures on: !swoff(s)

func SwitchWriter.Disable(s)
  prop C17
  modifies s.disabled
  ensures off: swoff(s)

// the writer attached to a switch
def att(s) = ite(s.ptr == nil, 0, sid(*s.ptr))
// an attached writer is never nil
def swok(s) = s.ptr != nil ==> *s.ptr != nil

func SwitchWriter.Get(s) w
  prop C17
  ensures cur: sid(w) == att(s)

func SwitchWriter.SampleRate(s) r
  prop C17
  panics s32(s) <= 0
  ensures rate: r == s32(s)

func SwitchWriter.SetSampleRate(s, rate)
  prop C17
  requires range: rate <= 2147483647
  panics rate <= 0 || s32(s) != -1
  modifies s.sampleRate
  ensures set: s32(s) == rate

func SwitchWriter.Swap(s, w) r
  prop C17
  requires swok(s)
  nilable w
  requires rates: s32(s) < 1000000 && (w != nil ==> 0 < rateOf(w) && rateOf(w) < 1000000)
  panics w != nil && s32(s) <= 0
  modifies s.ptr, remod()
  ensures prev: sid(r) == old(att(s))
  ensures swok(s)
  ensures cur: w == nil ==> att(s) == 0
  ensures same: w != nil && rateOf(w) == s32(s) ==> att(s) == sid(w)
  ensures conv: w != nil ==> att(s) != 0 && rateOf(*s.ptr) == s32(s)

func SwitchWriter.Close(s) err
  prop C17
  requires swok(s)
  modifies s.ptr, wcmod(*s.ptr)
  ensures detached: att(s) == 0
  ensures swok(s)
  ensures none: old(att(s)) == 0 ==> err == nil
  ensures closed: old(att(s)) != 0 ==> wclosed(old(*s.ptr)) == old(wclosed(*s.ptr)) + 1 && sid(err) == wcerr(old(*s.ptr), old(wclosed(*s.ptr)))

func SwitchWriter.WriteSample(s, sample) err
  prop C17
  requires swok(s)
  modifies wsmod(*s.ptr)
  ensures drop: swoff(s) || att(s) == 0 ==> err == nil && (att(s) != 0 ==> wscnt(*s.ptr) == old(wscnt(*s.ptr)))
  ensures one: !swoff(s) && att(s) != 0 ==> wscnt(*s.ptr) == old(wscnt(*s.ptr)) + 1 && wslen(*s.ptr) == old(wslen(*s.ptr)) + len(sample) && sid(err) == wserr(*s.ptr, old(wscnt(*s.ptr)))
  ensures data: !swoff(s) && att(s) != 0 ==> forall(k, 0, len(sample), wslog(*s.ptr, old(wslen(*s.ptr)) + k) == sample[k])

func MultiWriter.SampleRate(s) r
  prop C17
  requires nn: forall(i, 0, len(s), s[i] != nil)
  ensures first: r == ite(len(s) == 0, 0, rateOf(s[0]))

// each member is given the sample / closed exactly once, also when the same writer is listed once only
def mwok(s) = forall(i, 0, len(s), s[i] != nil) && forall(i j, 0, len(s), i != j ==> s[i] != s[j])

func MultiWriter.WriteSample(s, sample) err
  prop C17
  requires mwok(s)
  modifies wscnt(), wslen(), wslog(), wspos(), wsfl(), wsval(), wserr(), wsctn()
  ensures all: forall(i, 0, len(s), wscnt(s[i]) == old(wscnt(s[i])) + 1 && wsval(s[i], old(wscnt(s[i]))) == sid(sample))
  ensures ok: err == nil ==> forall(i, 0, len(s), wserr(s[i], old(wscnt(s[i]))) == 0)
  ensures last: err != nil ==> exists(i, 0, len(s), sid(err) == wserr(s[i], old(wscnt(s[i]))) && forall(j, i + 1, len(s), wserr(s[j], old(wscnt(s[j]))) == 0))
  loop done: forall(i, 0, $i, wscnt(s[i]) == atloop(wscnt(s[i])) + 1 && wsval(s[i], atloop(wscnt(s[i]))) == sid(sample))
  loop todo: forall(i, $i, len(s), wscnt(s[i]) == atloop(wscnt(s[i])))
  loop ok: $e == nil ==> forall(i, 0, $i, wserr(s[i], atloop(wscnt(s[i]))) == 0)
  loop last: $e != nil ==> exists(i, 0, $i, sid($e) == wserr(s[i], atloop(wscnt(s[i]))) && forall(j, i + 1, $i, wserr(s[j], atloop(wscnt(s[j]))) == 0))

func MultiWriter.Close(s) err
  prop C17
  requires mwok(s)
  modifies wclosed(), wcerr(), wclat()
  ensures all: forall(i, 0, len(s), wclosed(s[i]) == old(wclosed(s[i])) + 1)
  ensures ok: err == nil ==> forall(i, 0, len(s), wcerr(s[i], old(wclosed(s[i]))) == 0)
  ensures last: err != nil ==> exists(i, 0, len(s), sid(err) == wcerr(s[i], old(wclosed(s[i]))) && forall(j, i + 1, len(s), wcerr(s[j], old(wclosed(s[j]))) == 0))
  loop done: forall(i, 0, $i, wclosed(s[i]) == atloop(wclosed(s[i])) + 1)
  loop todo: forall(i, $i, len(s), wclosed(s[i]) == atloop(wclosed(s[i])))
  loop ok: $e == nil ==> forall(i, 0, $i, wcerr(s[i], atloop(wclosed(s[i]))) == 0)
  loop last: $e != nil ==> exists(i, 0, $i, sid($e) == wcerr(s[i], atloop(wclosed(s[i]))) && forall(j, i + 1, $i, wcerr(s[j], atloop(wclosed(s[j]))) == 0))
