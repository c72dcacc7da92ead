package dtmf
// C12: telephone events (RFC 4733); C13: playback.

// the sixteen digits in the order of their event codes
def codeDigit(c) = ite(c < 10, 48 + c, ite(c == 10, 42, ite(c == 11, 35, 97 + c - 12)))
def isDigit(d) = (d >= 48 && d <= 57) || d == 42 || d == 35 || (d >= 97 && d <= 100)
def digitCode(d) = ite(d == 42, 10, ite(d == 35, 11, ite(d >= 97, d - 97 + 12, d - 48)))
// keypad row and column of a code
def keyRow(c) = ite(c == 1 || c == 2 || c == 3 || c == 12, 697, ite(c == 4 || c == 5 || c == 6 || c == 13, 770, ite(c == 7 || c == 8 || c == 9 || c == 14, 852, 941)))
def keyCol(c) = ite(c == 1 || c == 4 || c == 7 || c == 10, 1209, ite(c == 2 || c == 5 || c == 8 || c == 0, 1336, ite(c == 3 || c == 6 || c == 9 || c == 11, 1477, 1633)))

lemma [C12] onetoone(c): each(c, 0, 16, isDigit(codeDigit(c)) && digitCode(codeDigit(c)) == c)
lemma [C12] onetoone2(d): isDigit(d) ==> digitCode(d) >= 0 && digitCode(d) < 16 && codeDigit(digitCode(d)) == d
lemma [C12] freqs(a, b): a >= 0 && a < 16 && b >= 0 && b < 16 && keyRow(a) == keyRow(b) && keyCol(a) == keyCol(b) ==> a == b

func Tone(digit) code, freq
  prop C12 C13
  ensures known: isDigit(digit) ==> code == digitCode(digit) && len(freq) == 2 && freq[0] == keyRow(code) && freq[1] == keyCol(code)
  ensures unknown: !isDigit(digit) ==> code == 0 && len(freq) == 0
  ensures fresh: isDigit(digit) ==> fresh(freq)

func Decode(data) ev, err
  prop C12
  ensures short: len(data) < 4 ==> err != nil && ev.Code == 0 && ev.Digit == 0 && ev.Volume == 0 && ev.Dur == 0 && !ev.End
  ensures fields: len(data) >= 4 ==> err == nil && ev.Code == data[0] && ev.End == (data[1] >= 128) && ev.Volume == band(data[1], 63) && ev.Dur == data[2] * 256 + data[3]
  ensures digit: len(data) >= 4 ==> ev.Digit == ite(data[0] < 16, codeDigit(data[0]), 0)

func DecodeRTP(h, payload) ev, ok
  prop C12
  ensures ok: ok == (h.Marker && len(payload) >= 4)
  ensures fields: ok ==> ev.Code == payload[0] && ev.End == (payload[1] >= 128) && ev.Volume == band(payload[1], 63) && ev.Dur == payload[2] * 256 + payload[3] && ev.Digit == ite(payload[0] < 16, codeDigit(payload[0]), 0)
  ensures none: !ok ==> ev.Code == 0 && ev.Digit == 0 && ev.Volume == 0 && ev.Dur == 0 && !ev.End

func Encode(out, ev) n, err
  prop C12 C13
  modifies elems(out[:4])
  ensures short: len(out) < 4 ==> err != nil && n == 0
  ensures done: len(out) >= 4 ==> err == nil && n == 4
  ensures code: len(out) >= 4 && (ev.Digit == 0 || isDigit(ev.Digit)) ==> out[0] == ite(ev.Digit == 0, ev.Code, digitCode(ev.Digit))
  ensures flags: len(out) >= 4 ==> out[1] == ite(ev.End, 128, 0) + band(ev.Volume, 63)
  ensures dur: len(out) >= 4 ==> out[2] == quo(ev.Dur, 256) && out[3] == rem(ev.Dur, 256)
  ensures none: len(out) < 4 ==> forall(k, 0, len(out), out[k] == old(out[k]))

// decoding what was encoded gives the event back
lemma [C12] roundtrip(v, e, d): v >= 0 && v < 64 && d >= 0 && d < 65536 && (e == 0 || e == 128) ==> band(e + band(v, 63), 63) == v && (e + band(v, 63) >= 128 <==> e == 128) && quo(d, 256) * 256 + rem(d, 256) == d && quo(d, 256) < 256

// Playback as a sequence of frames of 20 ms. kd(j), df(j): kind of the part frame j-1 belongs to (1 digit, 2 pause after
// a digit, 3 pause for 'w') and number of its frames played by then; dp(j): digits taken by then; dg(j): digit of the part.
def plen(k) = ite(k == 3, 25, ite(k == 0, 0, 13))
def started(df1, kd1) = df1 >= plen(kd1)
// a digit is sounding in frame j-1
def isTn(kd1, dg1) = kd1 == 1 && isDigit(dg1)

def frames() = ticks() - old(ticks())
// packets k of the digit d at timestamp t, d1-th frame of it
opaque evFields(ts, pt, n, pay, mk, d, d1, t, ty) = ts == t && pt == ty && n == 4 && strbyte(pay, 0) == digitCode(d) && strbyte(pay, 1) == 10 + ite(d1 == 13, 128, 0) && strbyte(pay, 2) * 256 + strbyte(pay, 3) == 160 * d1 && mk == ite(d1 == 1, 1, 0)
def evPacket(w, p, d, d1, t, ty) = evFields(wrTS(w, p), wrPT(w, p), wrLen(w, p), wrPay(w, p), wrMk(w, p), d, d1, t, ty)

func Write(ctx, audio, events, startTs, digits) err
  prop C13
  nilable audio, events
  absmul
  fold evFields
  requires rate: audio != nil ==> rateOf(audio) >= 0
  requires some: len(digits) < 100000
  requires log: events != nil ==> wrn(events.s.w) >= 0
  requires nowrap: events != nil ==> startTs + 4000 * len(digits) + 25 * events.packetDur < 4294967296 && events.s.maxTS <= startTs + 25 * events.packetDur
  define kd(j) := 0 ; ite(started(df(j - 1), kd(j - 1)), ite(kd(j - 1) == 1, 2, ite(strbyte(digits, dp(j - 1)) == 119, 3, 1)), kd(j - 1))
  define df(j) := 0 ; ite(started(df(j - 1), kd(j - 1)), 1, df(j - 1) + 1)
  define dp(j) := 0 ; ite(started(df(j - 1), kd(j - 1)) && kd(j - 1) != 1, dp(j - 1) + 1, dp(j - 1))
  define dg(j) := 0 ; ite(started(df(j - 1), kd(j - 1)) && kd(j) != 2, strbyte(digits, dp(j - 1)), dg(j - 1))
  define tse(j) := startTs ; tse(j - 1) + ite(df(j) == 1 && kd(j) == 2, 2000, 0) + ite(df(j) == 1 && kd(j) == 3, 4000, 0) + ite(isTn(kd(j), dg(j)) && df(j) == 13, 2000, 0)
  define pk(j) := 0 ; pk(j - 1) + ite(isTn(kd(j), dg(j)), ite(df(j) == 13, 3, 1), 0)
  define p0(j) := 0 ; pk(j - 1)
  define t0(j) := startTs ; tse(j - 1)
  unfold kd(0), df(0), dp(0), dg(0), tse(0), pk(0)
  unfold kd(frames()), df(frames()), dp(frames()), dg(frames()), tse(frames()), pk(frames())
  unfold kd(frames() + 1), df(frames() + 1), dp(frames() + 1), dg(frames() + 1), tse(frames() + 1), pk(frames() + 1), p0(frames() + 1), t0(frames() + 1)
  modifies wsmod(audio), ticks(), tickPer(), ctxerr(ctx), ctxdone(ctx), events.ev.Payload, events.ev.Marker, events.ev.Timestamp, events.followup, events.s.maxTS, events.s.h.PayloadType, events.s.h.Marker, events.s.h.Timestamp, events.s.h.SequenceNumber, wrmod(events.s.w)
  ensures pace: tickPer() == 20000000
  ensures audio: audio != nil ==> wscnt(audio) - old(wscnt(audio)) <= frames() && forall(f, old(wscnt(audio)), wscnt(audio), wsfl(audio, f) == quo(rateOf(audio), 50))
  ensures all: err == nil ==> frames() > 0 && dp(frames() - 1) == len(digits) && df(frames() - 1) >= plen(kd(frames() - 1)) && kd(frames() - 1) != 1
  ensures end: err != nil ==> sid(err) == ctxerr(ctx) || audio != nil && sid(err) == wserr(audio, wscnt(audio) - 1) || events != nil && sid(err) == wrErr(events.s.w, wrn(events.s.w) - 1)
  ensures sent: events != nil && err == nil ==> wrn(events.s.w) == old(wrn(events.s.w)) + pk(frames() - 1)
  ensures packets: events != nil ==> forall(f, 1, frames(), isTn(kd(f), dg(f)) ==> evPacket(events.s.w, old(wrn(events.s.w)) + p0(f), dg(f), df(f), t0(f), events.ev.Type))
  ensures repeat: events != nil ==> forall(f, 1, frames(), isTn(kd(f), dg(f)) && df(f) == 13 ==> evPacket(events.s.w, old(wrn(events.s.w)) + p0(f) + 1, dg(f), df(f), t0(f), events.ev.Type) && evPacket(events.s.w, old(wrn(events.s.w)) + p0(f) + 2, dg(f), df(f), t0(f), events.ev.Type))
  loop a1: events != nil ==> events.ev.Timestamp == tse(frames())
  loop a2: events != nil ==> tse(frames()) >= startTs
  loop a3: events != nil ==> tse(frames()) + ite(kd(frames()) == 1, ite(df(frames()) < 13, 4000, 2000), 0) <= startTs + 4000 * dp(frames())
  loop events != nil ==> events.s.maxTS <= tse(frames()) + 25 * events.packetDur
  loop events != nil ==> events.followup == (isTn(kd(frames()), dg(frames())) && df(frames()) < 13)
  loop events != nil ==> wrn(events.s.w) == old(wrn(events.s.w)) + pk(frames()) && pk(frames()) >= 0
  loop events != nil ==> forall(f, 1, frames() + 1, isTn(kd(f), dg(f)) ==> p0(f) >= 0 && pk(f) <= pk(frames()) && pk(f) == p0(f) + ite(df(f) == 13, 3, 1))
  loop events != nil ==> forall(f, 1, frames() + 1, isTn(kd(f), dg(f)) ==> evPacket(events.s.w, old(wrn(events.s.w)) + p0(f), dg(f), df(f), t0(f), events.ev.Type))
  loop events != nil ==> forall(f, 1, frames() + 1, isTn(kd(f), dg(f)) && df(f) == 13 ==> evPacket(events.s.w, old(wrn(events.s.w)) + p0(f) + 1, dg(f), df(f), t0(f), events.ev.Type) && evPacket(events.s.w, old(wrn(events.s.w)) + p0(f) + 2, dg(f), df(f), t0(f), events.ev.Type))
  loop audio != nil ==> wscnt(audio) == old(wscnt(audio)) + frames()
  loop audio != nil ==> forall(f, old(wscnt(audio)), wscnt(audio), wsfl(audio, f) == quo(rateOf(audio), 50))
  loop frames() >= 0
  loop kd(frames()) >= 0 && kd(frames()) <= 3 && df(frames()) >= 0 && df(frames()) <= plen(kd(frames())) && dp(frames()) >= 0 && dp(frames()) <= len(digits)
  loop (frames() == 0 <==> kd(frames()) == 0) && (frames() == 0 <==> df(frames()) == 0)
  loop $i == ite(kd(frames()) == 0, 0, ite(kd(frames()) == 3, 500000000, 250000000))
  loop $i == ite(kd(frames()) == 0, 0, ite(kd(frames()) == 3, 500000000, 250000000) - 20000000 * df(frames()))
  loop $i == ite(kd(frames()) == 1, 250000000, 0)
  loop isTn(kd(frames()), dg(frames())) ==> $i == digitCode(dg(frames()))
  loop $i == i64(20000000 * frames())
  loop len($s) == ite(isTn(kd(frames()), dg(frames())), 2, 0)
  loop len($t) == len(digits) - dp(frames()) && forall(k, 0, len($t), strbyte($t, k) == strbyte(digits, dp(frames()) + k))
