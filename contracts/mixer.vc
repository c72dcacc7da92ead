package mixer
// C02: mixing, C03: input buffers, C04: pacing

guard Mixer.mu: inputs
guard Input.mu: buffering
nonnil Mixer.out, Input.m, Input.buf

ghost total 2 // per mixer and position: sum of the samples its inputs supplied so far
ghost reads 1 // per input: how often it was consulted
ghost ocn 1   // frames sent to the output channel of a mixer: count, and per frame length and samples
ghost ocLen 2
ghost ocCtn 2
iface Mixer.outchan.send(m, c, v)
  set ocLen(m)[k] := ite(k == old(ocn(m)), len(v), old(ocLen(m, k)))
  set ocCtn(m)[k] := ite(k == old(ocn(m)), contents(v), old(ocCtn(m, k)))
  set ocn(m) := old(ocn(m)) + 1
iface Mixer.outchan.nosend(m, c)

// an input's buffer is a ring no other object writes to
def iok(i) = rb(i.buf) && i.m.stats != nil

func Input.readSample(i, bufMin, out) n, err
  prop C02, C03
  requires iok(i) && (len(out) > 0 ==> ref(out) != ref(i.buf.buf))
  modifies i.buffering, i.buf.read, i.buf.full, elems(out), reads(i), total(i.m), i.m.stats.Restarts
  set reads(i) := old(reads(i)) + 1
  set total(i.m)[j] := old(total(i.m, j)) + ite(0 <= j && j < n, out[j], 0)
  ensures inv: iok(i)
  ensures wait: old(i.buffering) && old(blen(i.buf)) < bufMin ==> n == 0 && i.buffering && blen(i.buf) == old(blen(i.buf)) && forall(k, 0, blen(i.buf), bat(i.buf, k) == old(bat(i.buf, k))) && i.m.stats.Restarts == old(i.m.stats.Restarts)
  ensures play: !(old(i.buffering) && old(blen(i.buf)) < bufMin) ==> n == min(len(out), old(blen(i.buf))) && blen(i.buf) == old(blen(i.buf)) - n && forall(k, 0, n, out[k] == old(bat(i.buf, k))) && forall(k, 0, blen(i.buf), bat(i.buf, k) == old(bat(i.buf, k + n)))
  ensures starve: !(old(i.buffering) && old(blen(i.buf)) < bufMin) ==> i.buffering == (n == 0) && i.m.stats.Restarts == u64(old(i.m.stats.Restarts) + ite(n == 0, 1, 0))
  ensures range: 0 <= n && n <= len(out) && forall(k, n, len(out), out[k] == old(out[k]))

func Input.WriteSample(i, sample) err
  prop C03
  requires iok(i) && (len(sample) > 0 ==> ref(sample) != ref(i.buf.buf))
  modifies i.buf.read, i.buf.write, i.buf.full, elems(i.buf.buf), i.m.stats.InputFrames, i.m.stats.InputSamples, i.m.stats.InputFramesDropped, i.m.stats.InputSamplesDropped
  ensures inv: iok(i) && err == nil
  ensures count: i.m.stats.InputFrames == u64(old(i.m.stats.InputFrames) + 1) && i.m.stats.InputSamples == u64(old(i.m.stats.InputSamples) + len(sample))
  ensures bounded: blen(i.buf) == min(old(blen(i.buf)) + len(sample), len(i.buf.buf)) && len(i.buf.buf) == old(len(i.buf.buf))
  ensures lost: i.m.stats.InputSamplesDropped == u64(old(i.m.stats.InputSamplesDropped) + old(wdrop(i.buf, sample))) && i.m.stats.InputFramesDropped == u64(old(i.m.stats.InputFramesDropped) + ite(old(wdrop(i.buf, sample)) > 0, 1, 0))
  ensures oldest: forall(k, 0, old(blen(i.buf) - wdrop(i.buf, sample)), bat(i.buf, k) == old(bat(i.buf, k + wdrop(i.buf, sample))))
  ensures newest: forall(k, max(0, old(blen(i.buf) - wdrop(i.buf, sample))), blen(i.buf), bat(i.buf, k) == sample[k - old(blen(i.buf) - wdrop(i.buf, sample))])

// ---- C02
def small(m) = m.stats != nil && len(m.mixBuf) <= 1048576 && 1 <= m.inputBufferFrames && m.inputBufferFrames <= 65536 && 0 <= m.inputBufferMin && m.inputBufferMin <= 65536 && len(m.inputs) <= 65535
def inok(m, k) = m.inputs[k] != nil && m.inputs[k].m == m && iok(m.inputs[k]) && ref(m.inputs[k].buf.buf) != ref(m.mixTmp)
def mixok(m) = len(m.mixBuf) <= cap(m.mixTmp) && (len(m.mixBuf) > 0 ==> m.mixTmp != nil)
def inputsok(m) = forall(k, 0, len(m.inputs), inok(m, k))
def mok(m) = small(m) && mixok(m) && inputsok(m)
def sum(m, j) = total(m, j) - old(total(m, j))

func Mixer.mixInputs(m)
  prop C02
  requires mok(m) && forall(j, 0, len(m.mixBuf), m.mixBuf[j] == 0) && forall(a b, 0, len(m.inputs), a != b ==> m.inputs[a] != m.inputs[b])
  modifies m.mixTmp, elemscap(m.mixTmp), elems(m.mixBuf), total(m), reads(), every(mixer.Input, buffering), every(ring.Buffer, read), every(ring.Buffer, full), m.stats.MixedFrames, m.stats.MixedSamples, m.stats.Restarts
  ensures inv: mok(m)
  ensures keep: ref(m.mixTmp) == old(ref(m.mixTmp)) && off(m.mixTmp) == old(off(m.mixTmp)) && cap(m.mixTmp) == old(cap(m.mixTmp))
  ensures sum: forall(j, 0, len(m.mixBuf), m.mixBuf[j] == sum(m, j))
  ensures once: forall(k, 0, len(m.inputs), reads(m.inputs[k]) == old(reads(m.inputs[k])) + 1)
  loop inv: mok(m)
  loop tmp: ref(m.mixTmp) == old(ref(m.mixTmp)) && off(m.mixTmp) == old(off(m.mixTmp)) && cap(m.mixTmp) == old(cap(m.mixTmp))
  loop sum: forall(j, 0, len(m.mixBuf), m.mixBuf[j] == sum(m, j))
  loop bound: forall(j, 0, len(m.mixBuf), 0 - 32768 * $i <= m.mixBuf[j] && m.mixBuf[j] <= 32768 * $i)
  loop cap: forall(j, $i, len(m.mixBuf), 0 - 2147418112 <= m.mixBuf[j] && m.mixBuf[j] <= 2147418112)
  loop read: forall(k, 0, $i, reads(m.inputs[k]) == old(reads(m.inputs[k])) + 1)
  loop unread: forall(k, $i, len(m.inputs), reads(m.inputs[k]) == old(reads(m.inputs[k])))
  loop add: forall(j, 0, len(m.mixBuf), m.mixBuf[j] == atloop(m.mixBuf[j]) + ite(j < $i, m.mixTmp[j], 0))

func Mixer.reset(m)
  prop C02
  modifies elems(m.mixBuf)
  ensures zero: forall(j, 0, len(m.mixBuf), m.mixBuf[j] == 0)
  loop zero: forall(j, 0, $i, m.mixBuf[j] == 0)

// every input is attached once
def distinct(m) = forall(a b, 0, len(m.inputs), a != b ==> m.inputs[a] != m.inputs[b])
def clamp(v) = max(0 - 32767, min(32767, v))
modset mixmod(m) = m.mixTmp, elemscap(m.mixTmp), elems(m.mixBuf), total(m), reads(), every(mixer.Input, buffering), every(ring.Buffer, read), every(ring.Buffer, full), m.stats.MixedFrames, m.stats.MixedSamples, m.stats.Restarts, m.stats.Mixes, m.mixCnt, m.stats.OutputFrames, m.stats.OutputSamples, m.stats.WriteErrors, m.stats.BlockedMixes, wsmod(m.out), ocn(m), ocLen(m), ocCtn(m), mixes(m)
ghost mixes 1 // frames a mixer produced

func Mixer.mixOnce(m)
  prop C02
  requires mok(m) && distinct(m)
  modifies mixmod(m)
  set mixes(m) := old(mixes(m)) + 1
  ensures inv: mok(m) && distinct(m)
  ensures once: forall(k, 0, len(m.inputs), reads(m.inputs[k]) == old(reads(m.inputs[k])) + 1)
  ensures keep: ref(m.mixTmp) == old(ref(m.mixTmp)) && off(m.mixTmp) == old(off(m.mixTmp)) && cap(m.mixTmp) == old(cap(m.mixTmp))
  ensures count: m.mixCnt == u64(old(m.mixCnt) + 1) && m.stats.Mixes == u64(old(m.stats.Mixes) + 1)
  ensures direct: m.outchan == nil ==> wscnt(m.out) == old(wscnt(m.out)) + 1 && wsfl(m.out, old(wscnt(m.out))) == len(m.mixBuf) && ocn(m) == old(ocn(m))
  ensures data: m.outchan == nil ==> wslen(m.out) == old(wslen(m.out)) + len(m.mixBuf) && forall(j, 0, len(m.mixBuf), wslog(m.out, old(wslen(m.out)) + j) == clamp(sum(m, j)))
  ensures queued: m.outchan != nil ==> ocn(m) == old(ocn(m)) + 1 && ocLen(m, old(ocn(m))) == len(m.mixBuf) && wscnt(m.out) == old(wscnt(m.out))
  ensures qdata: m.outchan != nil ==> forall(j, 0, len(m.mixBuf), elemof(ocCtn(m, old(ocn(m))), j) == clamp(sum(m, j)))
  loop out: forall(j, 0, $i, $d[j] == clamp(m.mixBuf[j]))

// ---- inputs come and go
ghost broken 1
extern core.Fuse.IsBroken(f) b
  ensures b == (broken(f) == 1)

func Mixer.NewInput(m) r
  prop C03
  nilable m
  requires m != nil ==> mok(m) && distinct(m) && len(m.mixBuf) > 0 && len(m.inputs) < 65535
  modifies m.inputs, elemscap(m.inputs), m.stats.Tracks, m.stats.TracksTotal
  ensures stopped: (r == nil) == (m == nil || broken(addr(m.stopped)) == 1)
  ensures none: r == nil && m != nil ==> len(m.inputs) == old(len(m.inputs)) && ref(m.inputs) == old(ref(m.inputs)) && off(m.inputs) == old(off(m.inputs))
  ensures new: r != nil ==> fresh(r) && r.m == m && r.buffering && r.sampleRate == m.sampleRate && rb(r.buf) && blen(r.buf) == 0 && len(r.buf.buf) == len(m.mixBuf) * m.inputBufferFrames
  ensures added: r != nil ==> len(m.inputs) == old(len(m.inputs)) + 1 && m.inputs[old(len(m.inputs))] == r
  ensures others: m != nil ==> forall(k, 0, old(len(m.inputs)), m.inputs[k] == old(m.inputs[k]))
  ensures inv: m != nil ==> small(m) && mixok(m) && inputsok(m)
  ensures apart: m != nil ==> forall(k, 0, old(len(m.inputs)), m.inputs[k] != r)
  ensures distinct: m != nil ==> distinct(m)

func Mixer.RemoveInput(m, inp)
  prop C03
  nilable m
  nilable inp
  requires m != nil ==> mok(m) && distinct(m)
  modifies m.inputs, elems(m.inputs), m.stats.Tracks
  ensures gone: m != nil && inp != nil ==> forall(k, 0, len(m.inputs), m.inputs[k] != inp)
  ensures absent: m != nil && old(forall(k, 0, len(m.inputs), m.inputs[k] != inp)) ==> len(m.inputs) == old(len(m.inputs)) && forall(k, 0, len(m.inputs), m.inputs[k] == old(m.inputs[k]))
  ensures others: m != nil ==> forall(k, 0, old(len(m.inputs)), old(m.inputs[k]) != inp ==> m.inputs[k] == old(m.inputs[k]) || k > 0 && m.inputs[k - 1] == old(m.inputs[k]))
  ensures inv: m != nil ==> mok(m) && distinct(m)

func Input.Close(i) err
  prop C03
  nilable i
  requires i != nil ==> mok(i.m) && distinct(i.m)
  modifies i.m.inputs, elems(i.m.inputs), i.m.stats.Tracks
  ensures gone: i != nil ==> forall(k, 0, len(i.m.inputs), i.m.inputs[k] != i)
  ensures err == nil

// ---- construction: thresholds, an empty mixer
def thr(m) = m.inputBufferFrames >= 1 && m.inputBufferMin == quo(m.inputBufferFrames, 2) + 1
functype MixerOptions(f, m)
  modifies m.outchan, m.inputBufferFrames, m.inputBufferMin, m.stats
  requires m != nil && thr(m)
  ensures thr(m)

func WithInputBufferFrames$1(m)
  prop C03
  modifies m.inputBufferFrames, m.inputBufferMin
  ensures thr(m)
  ensures set: m.inputBufferFrames == ite(frames <= 0, 5, frames)

func WithOutputChannelSize$1(m)
  prop C03
  requires thr(m)
  modifies m.outchan
  ensures thr(m)
  ensures set: m.outchan != nil

func WithStats$1(m)
  prop C03
  nilable stats
  requires thr(m)
  modifies m.stats
  ensures thr(m)

func newMixer(out, mixSize, options) m
  prop C02 C03
  requires 0 <= mixSize && mixSize <= 1048576
  requires forall(k, 0, len(options), options[k] != nil)
  ensures fresh(m)
  ensures thr: thr(m)
  ensures stats: m.stats != nil
  ensures empty: len(m.inputs) == 0 && m.out == out && len(m.mixBuf) == mixSize && len(m.mixTmp) == mixSize && m.lastMixEndTs == 0
  ensures ok: mixok(m) && inputsok(m) && distinct(m)
  loop thr: thr($u)

// ---- C04
def due(m) = quo(clock - old(m.lastMixEndTs) + quo(m.tickerDur, 4), m.tickerDur)
// no wake-up is more than 146 years late
def sane(m) = clock - old(m.lastMixEndTs) <= 4611686018427387904
def made(m) = mixes(m) - old(mixes(m))

func Mixer.mixUpdate(m)
  prop C04
  requires mok(m) && distinct(m) && m.tickerDur > 0 && mixes(m) >= 0
  modifies mixmod(m), m.lastMixEndTs, m.stats.TimedMixes, m.stats.NegativeMixes, m.stats.ZeroMixes, m.stats.JumpMixes, m.stats.TimingResets
  ensures inv: mok(m) && distinct(m)
  ensures keep: ref(m.mixTmp) == old(ref(m.mixTmp)) && off(m.mixTmp) == old(off(m.mixTmp)) && cap(m.mixTmp) == old(cap(m.mixTmp))
  ensures first: old(m.lastMixEndTs) == 0 ==> made(m) == 1 && m.lastMixEndTs == clock
  ensures early: old(m.lastMixEndTs) != 0 && clock < old(m.lastMixEndTs) ==> made(m) == 0 && m.lastMixEndTs == old(m.lastMixEndTs)
  ensures count: old(m.lastMixEndTs) != 0 && clock >= old(m.lastMixEndTs) && sane(m) ==> made(m) == min(due(m), m.inputBufferFrames)
  ensures ref: old(m.lastMixEndTs) != 0 && clock >= old(m.lastMixEndTs) && sane(m) ==> m.lastMixEndTs == ite(due(m) > m.inputBufferFrames, clock, old(m.lastMixEndTs) + due(m) * m.tickerDur)
  loop tmp: ref(m.mixTmp) == old(ref(m.mixTmp)) && off(m.mixTmp) == old(off(m.mixTmp)) && cap(m.mixTmp) == old(cap(m.mixTmp))
  loop cnt: mixes(m) == atloop(mixes(m)) + $i
  loop cap: old(m.lastMixEndTs) == 0 || clock < old(m.lastMixEndTs) || !sane(m) || $i <= due(m)
  loop inv: mok(m) && distinct(m)
