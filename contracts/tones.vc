package tones
// C26: tone playback.

// one frequency at a point in time, and the mean of the first j frequencies
def wave(phi, hz) = realfn("fn:math.Sin", real(i64(i64(phi * hz) * 2)) / real(1000000000) * pi())
def phase(ts, dur, i, n) = i64(ts + quo(i64(dur * i), n))

def mix(id, n, amp, phi) = intfn("trunc:int16", real(amp) * hsum(n, phi, id) / real(n))

// the contents id (n samples) are silence, or the mean of the tones fid (nf of them) at times ts .. ts+dur
def isSilence(id, n) = forall(k, 0, n, elemof(id, k) == 0)
opaque isTone(id, n, fid, nf, amp, ts, dur) = forall(k, 0, n, elemof(id, k) == mix(fid, nf, amp, phase(ts, dur, k, n)))

func Generate(buf, ts, dur, amp, freq) r
  prop C26 C13
  absmul
  define real hsum(j, phi, id) := real(0) ; hsum(j - 1, phi, id) + wave(phi, elemof(id, j - 1))
  unfold hsum($j, phase(ts, dur, $o, len(buf)), contents(freq)), hsum($j + 1, phase(ts, dur, $o, len(buf)), contents(freq))
  modifies elems(buf)
  ensures time: r == i64(ts + dur)
  ensures silence: len(freq) == 0 ==> isSilence(ctn(buf), len(buf))
  ensures wave: len(freq) > 0 ==> isTone(ctn(buf), len(buf), contents(freq), len(freq), amp, ts, dur)
  reveal isTone
  loop len(freq) == 0 ==> forall(k, 0, $i, buf[k] == 0)
  loop len(freq) > 0 ==> forall(k, 0, $i, buf[k] == mix(contents(freq), len(freq), amp, phase(ts, dur, k, len(buf))))
  loop $x == hsum($j, phase(ts, dur, $o, len(buf)), contents(freq))

// The pattern as a sequence of frames of 20 ms: at(j) is the position of frame j in tone 0, silence 0, tone 1, ...,
// left(j) what is left of that part when frame j starts.
def part(tones, p) = ite(rem(p, 2) == 0, tones[quo(p, 2)].Dur, tones[quo(p, 2)].Silence)
def after(tones, p) = rem(p + 1, 2 * len(tones))
def skip(tones, p) = ite(rem(p, 2) == 1 && tones[quo(p, 2)].Silence == 0, after(tones, p), p)
def freqs(tones, p) = ite(rem(p, 2) == 0, len(tones[quo(p, 2)].Freq), 0)
def played(audio) = wscnt(audio) - old(wscnt(audio))

func Play(ctx, audio, vol, tones) err
  prop C26
  absmul
  requires some: len(tones) > 0 && len(tones) < 4611686018427387904
  requires rate: rateOf(audio) >= 0
  requires durs: forall(k, 0, len(tones), tones[k].Dur >= 0 && tones[k].Silence >= 0)
  define at(j) := 0 ; ite(left(j - 1) - 20000000 > 0, at(j - 1), skip(tones, after(tones, at(j - 1))))
  define left(j) := tones[0].Dur ; ite(left(j - 1) - 20000000 > 0, left(j - 1) - 20000000, part(tones, at(j)))
  define nf(j) := freqs(tones, 0) ; freqs(tones, at(j))
  define fq(j) := contents(tones[0].Freq) ; contents(tones[quo(at(j), 2)].Freq)
  unfold at(0), left(0), at(played(audio)), left(played(audio)), at(played(audio) - 1), left(played(audio) - 1), nf(0), nf(played(audio)), nf(played(audio) - 1), fq(0), fq(played(audio)), fq(played(audio) - 1)
  modifies wsmod(audio), ticks(), tickPer(), ctxerr(ctx), ctxdone(ctx)
  ensures ends: err != nil
  ensures ctxorwrite: sid(err) == ctxerr(ctx) || sid(err) == wserr(audio, wscnt(audio) - 1)
  ensures pace: tickPer() == 20000000 && played(audio) == ticks() - old(ticks())
  ensures size: forall(f, old(wscnt(audio)), wscnt(audio), wsfl(audio, f) == quo(rateOf(audio), 50))
  ensures sound: forall(f, 0, played(audio), nf(f) > 0 ==> isTone(wsctn(audio, old(wscnt(audio)) + f), quo(rateOf(audio), 50), fq(f), nf(f), vol, i64(f * 20000000), 20000000))
  ensures silence: forall(f, 0, played(audio), nf(f) == 0 ==> isSilence(wsctn(audio, old(wscnt(audio)) + f), quo(rateOf(audio), 50)))
  loop forall(f, 0, played(audio), nf(f) > 0 ==> isTone(wsctn(audio, old(wscnt(audio)) + f), quo(rateOf(audio), 50), fq(f), nf(f), vol, i64(f * 20000000), 20000000))
  loop forall(f, 0, played(audio), nf(f) == 0 ==> isSilence(wsctn(audio, old(wscnt(audio)) + f), quo(rateOf(audio), 50)))
  loop played(audio) > 0 ==> len($s) == nf(played(audio) - 1)
  loop played(audio) > 0 && len($s) > 0 ==> contents($s) == fq(played(audio) - 1)
  loop ticks() - old(ticks()) == played(audio)
  loop played(audio) >= 0
  loop forall(f, old(wscnt(audio)), wscnt(audio), wsfl(audio, f) == quo(rateOf(audio), 50))
  loop played(audio) == 0 ==> $i == -1
  loop played(audio) == 0 ==> $i == 0
  loop played(audio) > 0 ==> $i == at(played(audio) - 1)
  loop played(audio) > 0 ==> $i == left(played(audio) - 1) - 20000000
  loop ind: $i >= -1 && $i < 2 * len(tones)
  loop $i == i64(played(audio) * 20000000)
