package rtp
// C08: sequence writer; C09: stream timestamps; C10: mux; C11: port ranges; C28: jitter handler.

// ---- what a transport was asked to send: number of attempts, and per attempt the header fields and payload
ghost wrn 1
ghost wrSeq 2
ghost wrTS 2
ghost wrPT 2
ghost wrMk 2
ghost wrSSRC 2
ghost wrVer 2
ghost wrPay 2
ghost wrLen 2
ghost wrErr 2
modset wrmod(w) = wrn(w), wrSeq(w), wrTS(w), wrPT(w), wrMk(w), wrSSRC(w), wrVer(w), wrPay(w), wrLen(w), wrErr(w)
def b2i(b) = ite(b, 1, 0)

// every transport: assumed not to change the header and not to keep it
iface WriteRTP(w, h, payload) n, err
  set wrSeq(w)[k] := ite(k == old(wrn(w)), h.SequenceNumber, old(wrSeq(w, k)))
  set wrTS(w)[k] := ite(k == old(wrn(w)), h.Timestamp, old(wrTS(w, k)))
  set wrPT(w)[k] := ite(k == old(wrn(w)), h.PayloadType, old(wrPT(w, k)))
  set wrMk(w)[k] := ite(k == old(wrn(w)), b2i(h.Marker), old(wrMk(w, k)))
  set wrSSRC(w)[k] := ite(k == old(wrn(w)), h.SSRC, old(wrSSRC(w, k)))
  set wrVer(w)[k] := ite(k == old(wrn(w)), h.Version, old(wrVer(w, k)))
  set wrPay(w)[k] := ite(k == old(wrn(w)), bytes(payload), old(wrPay(w, k)))
  set wrLen(w)[k] := ite(k == old(wrn(w)), len(payload), old(wrLen(w, k)))
  set wrErr(w)[k] := ite(k == old(wrn(w)), sid(err), old(wrErr(w, k)))
  set wrn(w) := old(wrn(w)) + 1

// entry k of the log of a transport is as it was
def sameEntry(w, k) = wrSeq(w, k) == old(wrSeq(w, k)) && wrTS(w, k) == old(wrTS(w, k)) && wrPT(w, k) == old(wrPT(w, k)) && wrMk(w, k) == old(wrMk(w, k)) && wrPay(w, k) == old(wrPay(w, k)) && wrLen(w, k) == old(wrLen(w, k)) && wrErr(w, k) == old(wrErr(w, k))

guard SeqWriter.mu: h
guard Stream.mu: ev, followup
nonnil SeqWriter.w, Stream.s, MediaStreamOut.s, MediaStreamIn.Writer

func NewSeqWriter(w) r
  prop C08
  ensures fresh(r)
  ensures start: r.w == w && r.h.SequenceNumber == 0 && r.h.Version == 2

def lastIs(w, s, pt, mk, ts, ssrc, ver, pay, n) = wrSeq(w, n) == s && wrPT(w, n) == pt && wrMk(w, n) == b2i(mk) && wrTS(w, n) == ts && wrSSRC(w, n) == ssrc && wrVer(w, n) == ver && wrPay(w, n) == pay

func SeqWriter.WriteEvent(s, ev) err
  prop C08
  modifies s.h.PayloadType, s.h.Marker, s.h.Timestamp, s.h.SequenceNumber, wrmod(s.w)
  ensures one: wrn(s.w) == old(wrn(s.w)) + 1
  ensures keep: forall(k, 0, old(wrn(s.w)), sameEntry(s.w, k))
  ensures packet: wrSeq(s.w, old(wrn(s.w))) == old(s.h.SequenceNumber) && wrPT(s.w, old(wrn(s.w))) == ev.Type && wrMk(s.w, old(wrn(s.w))) == b2i(ev.Marker) && wrTS(s.w, old(wrn(s.w))) == ev.Timestamp && wrPay(s.w, old(wrn(s.w))) == bytes(ev.Payload) && wrLen(s.w, old(wrn(s.w))) == len(ev.Payload)
  ensures ident: wrSSRC(s.w, old(wrn(s.w))) == old(s.h.SSRC) && wrVer(s.w, old(wrn(s.w))) == old(s.h.Version) && s.h.SSRC == old(s.h.SSRC) && s.h.Version == old(s.h.Version)
  ensures err: sid(err) == wrErr(s.w, old(wrn(s.w)))
  ensures next: s.h.SequenceNumber == ite(err == nil, u16(old(s.h.SequenceNumber) + 1), old(s.h.SequenceNumber))
  ensures clean: !s.h.Extension && !s.h.Padding <==> old(!s.h.Extension && !s.h.Padding)

// while ts + 25 packets stays below 2^32 the adjustment is exact; the maximum never moves back at all
func SeqWriter.CurTS(s, ts, inc) r
  prop C09
  modifies s.maxTS
  ensures keepts: ts + 25 * inc < 4294967296 && old(s.maxTS) <= ts + 25 * inc ==> r == ts
  ensures jump: ts + 25 * inc < 4294967296 && old(s.maxTS) > ts + 25 * inc ==> r == old(s.maxTS)
  ensures either: r == ts || r == old(s.maxTS)
  ensures max: s.maxTS == max(old(s.maxTS), r)
  loop s.maxTS == old(s.maxTS)

func SeqWriter.NewStreamWithDur(s, typ, packetDur) r
  prop C09
  ensures fresh(r) && r.s == s && r.packetDur == packetDur && r.ev.Type == typ && r.ev.Timestamp == 0 && !r.followup

func SeqWriter.NewStream(s, typ, clockRate) r
  prop C09
  requires rate: clockRate >= 0
  ensures fresh(r) && r.s == s && r.packetDur == u32(quo(clockRate, 50)) && r.ev.Type == typ && r.ev.Timestamp == 0 && !r.followup

// the timestamp the next packet of a stream gets
def tsok(s) = s.ev.Timestamp + 25 * s.packetDur < 4294967296
def nextTS(s) = ite(s.followup || s.s.maxTS <= s.ev.Timestamp + 25 * s.packetDur, s.ev.Timestamp, s.s.maxTS)
def sent(s) = wrn(s.s.w) - 1

func Stream.writePayload(s, inc, data, marker) err
  prop C09
  requires tsok: tsok(s)
  modifies s.ev.Payload, s.ev.Marker, s.ev.Timestamp, s.followup, s.s.maxTS, s.s.h.PayloadType, s.s.h.Marker, s.s.h.Timestamp, s.s.h.SequenceNumber, wrmod(s.s.w)
  ensures one: wrn(s.s.w) == old(wrn(s.s.w)) + 1
  ensures keep: forall(k, 0, old(wrn(s.s.w)), sameEntry(s.s.w, k))
  ensures ts: wrTS(s.s.w, sent(s)) == old(nextTS(s))
  ensures what: wrPT(s.s.w, sent(s)) == s.ev.Type && wrMk(s.s.w, sent(s)) == b2i(marker) && wrPay(s.s.w, sent(s)) == bytes(data) && wrLen(s.s.w, sent(s)) == len(data)
  ensures ident: wrSSRC(s.s.w, sent(s)) == s.s.h.SSRC && wrVer(s.s.w, sent(s)) == s.s.h.Version && wrSeq(s.s.w, sent(s)) == old(s.s.h.SequenceNumber)
  ensures next: s.s.h.SequenceNumber == ite(err == nil, u16(old(s.s.h.SequenceNumber) + 1), old(s.s.h.SequenceNumber))
  ensures err: sid(err) == wrErr(s.s.w, sent(s))
  ensures advance: err == nil && inc ==> s.ev.Timestamp == u32(old(nextTS(s)) + s.packetDur) && !s.followup
  ensures stay: err == nil && !inc ==> s.ev.Timestamp == old(nextTS(s)) && s.followup
  ensures failed: err != nil ==> s.ev.Timestamp == old(nextTS(s)) && s.followup == old(s.followup)
  ensures max: s.s.maxTS == ite(old(s.followup), old(s.s.maxTS), max(old(s.s.maxTS), old(nextTS(s))))

func Stream.WritePayload(s, data, marker) err
  prop C09
  requires tsok: tsok(s)
  modifies s.ev.Payload, s.ev.Marker, s.ev.Timestamp, s.followup, s.s.maxTS, s.s.h.PayloadType, s.s.h.Marker, s.s.h.Timestamp, s.s.h.SequenceNumber, wrmod(s.s.w)
  ensures one: wrn(s.s.w) == old(wrn(s.s.w)) + 1
  ensures keep: forall(k, 0, old(wrn(s.s.w)), sameEntry(s.s.w, k))
  ensures ts: wrTS(s.s.w, sent(s)) == old(nextTS(s))
  ensures what: wrPT(s.s.w, sent(s)) == s.ev.Type && wrMk(s.s.w, sent(s)) == b2i(marker) && wrPay(s.s.w, sent(s)) == bytes(data) && wrLen(s.s.w, sent(s)) == len(data)
  ensures err: sid(err) == wrErr(s.s.w, sent(s))
  ensures advance: err == nil ==> s.ev.Timestamp == u32(old(nextTS(s)) + s.packetDur) && !s.followup
  ensures failed: err != nil ==> s.ev.Timestamp == old(nextTS(s)) && s.followup == old(s.followup)
  ensures max: s.s.maxTS == ite(old(s.followup), old(s.s.maxTS), max(old(s.s.maxTS), old(nextTS(s))))

func Stream.WritePayloadAtCurrent(s, data, marker) err
  prop C09
  requires tsok: tsok(s)
  modifies s.ev.Payload, s.ev.Marker, s.ev.Timestamp, s.followup, s.s.maxTS, s.s.h.PayloadType, s.s.h.Marker, s.s.h.Timestamp, s.s.h.SequenceNumber, wrmod(s.s.w)
  ensures one: wrn(s.s.w) == old(wrn(s.s.w)) + 1
  ensures keep: forall(k, 0, old(wrn(s.s.w)), sameEntry(s.s.w, k))
  ensures ts: wrTS(s.s.w, sent(s)) == old(nextTS(s))
  ensures what: wrPT(s.s.w, sent(s)) == s.ev.Type && wrMk(s.s.w, sent(s)) == b2i(marker) && wrPay(s.s.w, sent(s)) == bytes(data) && wrLen(s.s.w, sent(s)) == len(data)
  ensures err: sid(err) == wrErr(s.s.w, sent(s))
  ensures stay: err == nil ==> s.ev.Timestamp == old(nextTS(s)) && s.followup
  ensures failed: err != nil ==> s.ev.Timestamp == old(nextTS(s)) && s.followup == old(s.followup)
  ensures max: s.s.maxTS == ite(old(s.followup), old(s.s.maxTS), max(old(s.s.maxTS), old(nextTS(s))))

def delayed(s, dur) = u32(s.ev.Timestamp + dur)
func Stream.Delay(s, dur)
  prop C09
  requires tsok: u32(s.ev.Timestamp + dur) + 25 * s.packetDur < 4294967296
  modifies s.ev.Timestamp, s.followup, s.s.maxTS
  ensures ts: s.ev.Timestamp == old(ite(s.s.maxTS <= delayed(s, dur) + 25 * s.packetDur, delayed(s, dur), s.s.maxTS))
  ensures open: !s.followup
  ensures max: s.s.maxTS == max(old(s.s.maxTS), s.ev.Timestamp)

func Stream.DelayN(s, n)
  prop C09
  requires tsok: u32(s.ev.Timestamp + u32(u32(n) * s.packetDur)) + 25 * s.packetDur < 4294967296
  panics n < 0
  modifies s.ev.Timestamp, s.followup, s.s.maxTS
  ensures ts: s.ev.Timestamp == old(ite(s.s.maxTS <= delayed(s, u32(u32(n) * s.packetDur)) + 25 * s.packetDur, delayed(s, u32(u32(n) * s.packetDur)), s.s.maxTS))
  ensures open: !s.followup

func Stream.ResetTimestamp(s, ts)
  prop C09
  modifies s.ev.Timestamp, s.followup
  ensures s.ev.Timestamp == ts && !s.followup

func Stream.GetCurrentTimestamp(s) r
  prop C09
  ensures r == s.ev.Timestamp

func MediaStreamOut.WriteSample(s, sample) err
  prop C08 C09
  requires tsok: tsok(s.s)
  modifies s.s.ev.Payload, s.s.ev.Marker, s.s.ev.Timestamp, s.s.followup, s.s.s.maxTS, s.s.s.h.PayloadType, s.s.s.h.Marker, s.s.s.h.Timestamp, s.s.s.h.SequenceNumber, wrmod(s.s.s.w)
  ensures one: wrn(s.s.s.w) == old(wrn(s.s.s.w)) + 1
  ensures what: wrPT(s.s.s.w, sent(s.s)) == s.s.ev.Type && wrMk(s.s.s.w, sent(s.s)) == 0 && wrPay(s.s.s.w, sent(s.s)) == bytes(sample) && wrLen(s.s.s.w, sent(s.s)) == len(sample)
  ensures ts: wrTS(s.s.s.w, sent(s.s)) == old(nextTS(s.s))
  ensures err: sid(err) == wrErr(s.s.s.w, sent(s.s))

func NewMediaStreamOut(s, sampleRate) r
  prop C08
  ensures fresh(r) && r.s == s && r.sampleRate == sampleRate

func MediaStreamIn.HandleRTP(s, h, payload) err
  prop C10
  nilable h
  modifies wsmod(s.Writer)
  ensures one: wscnt(s.Writer) == old(wscnt(s.Writer)) + 1 && wslen(s.Writer) == old(wslen(s.Writer)) + len(payload)
  ensures err: sid(err) == wserr(s.Writer, old(wscnt(s.Writer)))

// ---- C10: mux
ghost hrn 1     // number of HandleRTP calls
ghost hrH 2     // header given to the i-th call
ghost hrPay 2   // payload given to the i-th call
ghost hrErr 2   // error returned by it
ghost hrErrs 1  // how many of them failed
modset hrmod(r) = hrn(r), hrH(r), hrPay(r), hrErr(r), hrErrs(r)
iface HandleRTP(r, h, payload) err
  set hrH(r)[k] := ite(k == old(hrn(r)), ref(h), old(hrH(r, k)))
  set hrPay(r)[k] := ite(k == old(hrn(r)), bytes(payload), old(hrPay(r, k)))
  set hrErr(r)[k] := ite(k == old(hrn(r)), sid(err), old(hrErr(r, k)))
  set hrErrs(r) := old(hrErrs(r)) + ite(err == nil, 0, 1)
  set hrn(r) := old(hrn(r)) + 1

guard Mux.mu: static, dynamic, def
// the handler registered for a type (nil if none), and the one a packet of that type goes to
def reg(m, t) = ite(t < len(m.static), m.static[t], ite(dom(m.dynamic, t), m.dynamic[t], 0))
def target(m, t) = ite(reg(m, t) != 0, reg(m, t), m.def)
def muxok(m) = m.dynamic != nil

func NewMux(def) r
  prop C10
  nilable def
  ensures fresh(r) && muxok(r) && r.def == def
  ensures empty: forall(t, 0, 256, reg(r, t) == 0)

func Mux.SetDefault(m, h)
  prop C10
  nilable h
  modifies m.def
  ensures m.def == h

func Mux.Register(m, typ, h)
  prop C10
  nilable h
  requires muxok(m)
  modifies m.static, mapof(m.dynamic)
  ensures set: reg(m, typ) == h
  ensures others: forall(t, 0, 256, t != typ ==> reg(m, t) == old(reg(m, t)))

func Mux.HandleRTP(m, h, payload) err
  prop C10
  nilable m
  requires muxok(m)
  modifies hrmod(target(m, h.PayloadType))
  ensures drop: m == nil || target(m, h.PayloadType) == 0 ==> err == nil
  ensures nilmux: m == nil ==> hrn(target(m, h.PayloadType)) == old(hrn(target(m, h.PayloadType)))
  ensures one: m != nil && target(m, h.PayloadType) != 0 ==> hrn(target(m, h.PayloadType)) == old(hrn(target(m, h.PayloadType))) + 1 && sid(err) == hrErr(target(m, h.PayloadType), old(hrn(target(m, h.PayloadType))))
  ensures what: m != nil && target(m, h.PayloadType) != 0 ==> hrH(target(m, h.PayloadType), old(hrn(target(m, h.PayloadType)))) == ref(h) && hrPay(target(m, h.PayloadType), old(hrn(target(m, h.PayloadType)))) == bytes(payload)

func CodecByPayloadType(typ) c
  prop C10
  ensures c == codecByType[typ]

func HandlerFunc.HandleRTP(fnc, h, payload) err
  prop C10
  nilable fnc
  ensures fnc == nil ==> err == nil
