package rtp
// C27: sessions: one datagram per packet, demultiplexing by SSRC

// ---- the connection: datagrams read and written
ghost dgN 0    // datagrams read in all (of the session under verification)
ghost dgLen 1
ghost dgCtn 1
ghost dgErr 0  // error of the last read
ghost cwn 1
ghost cwLen 2
ghost cwCtn 2
ghost cwErr 2
ghost cwRes 2
iface Conn.Read(c, b) n, err
  modifies elems(b), dgN(), dgLen(dgN()), dgCtn(dgN()), dgErr()
  ensures 0 <= n && n <= len(b) && sid(err) == dgErr()
  ensures dgN() < 1099511627776 // fewer datagrams than that are read
  ensures err == nil ==> dgN() == old(dgN()) + 1 && dgLen(old(dgN())) == n && dgCtn(old(dgN())) == ctn(b[0:n])
  ensures err != nil ==> dgN() == old(dgN())
iface Conn.Write(c, b) n, err
  modifies cwn(c), cwLen(c), cwCtn(c), cwErr(c), cwRes(c)
  set cwLen(c)[k] := ite(k == old(cwn(c)), len(b), old(cwLen(c, k)))
  set cwCtn(c)[k] := ite(k == old(cwn(c)), ctn(b), old(cwCtn(c, k)))
  set cwErr(c)[k] := ite(k == old(cwn(c)), sid(err), old(cwErr(c, k)))
  set cwRes(c)[k] := ite(k == old(cwn(c)), n, old(cwRes(c, k)))
  set cwn(c) := old(cwn(c)) + 1

// ---- the RTP library. A header is identified by its fields; its extensions by their contents.
ghost extid 1  // contents of an extension list
ghost extown 1 // the list refers to no buffer of somebody else
logic hdrid
logic hsz
logic hbyte
def hid(h) = hdrid(h.Version, b2i(h.Padding), b2i(h.Extension), b2i(h.Marker), h.PayloadType, h.SequenceNumber, h.Timestamp, h.SSRC, ctn(h.CSRC), h.ExtensionProfile, extid(ref(h.Extensions)))
extern rtp.Header.MarshalSize(h) n
  ensures n == hsz(hid(h)) && 12 <= n && n < 1048576
extern rtp.Header.MarshalTo(h, buf) n, err
  modifies elems(buf)
  ensures err == nil ==> n == hsz(old(hid(h))) && n <= len(buf) && forall(k, 0, n, buf[k] == hbyte(old(hid(h)), k))

nonnil session.conn, session.w, writeStream.conn
guard writeStream.mu: buf

func writeStream.WriteRTP(w, h, payload) n, err
  prop C27
  requires len(payload) > 0 ==> ref(payload) != ref(w.buf)
  requires len(payload) < 1099511627776
  modifies w.buf, elemscap(w.buf), cwn(w.conn), cwLen(w.conn), cwCtn(w.conn), cwErr(w.conn), cwRes(w.conn)
  ensures one: cwn(w.conn) <= old(cwn(w.conn)) + 1 && (err == nil ==> cwn(w.conn) == old(cwn(w.conn)) + 1)
  ensures keep: forall(k, 0, old(cwn(w.conn)), cwLen(w.conn, k) == old(cwLen(w.conn, k)) && cwCtn(w.conn, k) == old(cwCtn(w.conn, k)))
  ensures size: cwn(w.conn) == old(cwn(w.conn)) + 1 ==> cwLen(w.conn, old(cwn(w.conn))) == hsz(old(hid(h))) + len(payload)
  ensures head: cwn(w.conn) == old(cwn(w.conn)) + 1 ==> forall(k, 0, hsz(old(hid(h))), elemof(cwCtn(w.conn, old(cwn(w.conn))), k) == hbyte(old(hid(h)), k))
  ensures body: cwn(w.conn) == old(cwn(w.conn)) + 1 ==> forall(k, hsz(old(hid(h))), hsz(old(hid(h))) + len(payload), elemof(cwCtn(w.conn, old(cwn(w.conn))), k) == old(payload[k - hsz(hid(h))]))
  ensures result: cwn(w.conn) == old(cwn(w.conn)) + 1 ==> sid(err) == cwErr(w.conn, old(cwn(w.conn))) && n == cwRes(w.conn, old(cwn(w.conn)))

// ---- parsing: what a datagram means is a function of its contents
logic dgparses Bool
logic dgSSRC
logic dgSN
logic dgTS
logic dgPT
logic dgMk
logic dgPay
logic dgExt
extern rtp.Packet.Unmarshal(p, buf) err
  modifies p.Header, p.Payload, p.PaddingSize
  ensures (err == nil) <==> dgparses(ctn(buf))
  ensures err == nil ==> p.SSRC == dgSSRC(ctn(buf)) && p.SequenceNumber == dgSN(ctn(buf)) && p.Timestamp == dgTS(ctn(buf)) && p.PayloadType == dgPT(ctn(buf)) && b2i(p.Marker) == dgMk(ctn(buf)) && bytes(p.Payload) == dgPay(ctn(buf)) && extid(ref(p.Extensions)) == dgExt(ctn(buf))
  // the payload and the extensions refer to the datagram
  ensures err == nil ==> len(p.Payload) <= len(buf) && (len(p.Payload) > 0 ==> ref(p.Payload) == ref(buf)) && (len(p.Extensions) > 0 ==> extown(ref(p.Extensions)) == 0)
extern rtp.Header.Clone(h) c
  ensures c.Version == h.Version && c.Padding == h.Padding && c.Extension == h.Extension && c.Marker == h.Marker && c.PayloadType == h.PayloadType && c.SequenceNumber == h.SequenceNumber && c.Timestamp == h.Timestamp && c.SSRC == h.SSRC && c.ExtensionProfile == h.ExtensionProfile
  ensures len(c.Extensions) == len(h.Extensions) && extid(ref(c.Extensions)) == extid(ref(h.Extensions)) && extown(ref(c.Extensions)) == 1
  ensures len(c.CSRC) == len(h.CSRC) && ctn(c.CSRC) == ctn(h.CSRC)

// ---- a read stream: what was queued and what was handed to a waiting reader
guard readStream.mu: hdr, payload
ghost qPay 2
ghost qSN 2
ghost qLen 2
ghost qEl 2
ghost qExt 2
ghost qMk 2
ghost qTS 2
ghost cpn 1
ghost cpv 2
iface readStream.recv.send(r, c, v)
  holds r.mu
  requires idle: r.hdr == nil
  requires own: v != nil && (len(v.Payload) > 0 ==> fresh(v.Payload)) && (len(v.Extensions) > 0 ==> extown(ref(v.Extensions)) == 1)
  modifies qsn(c), qval(c), qPay(c), qLen(c), qEl(c), qSN(c), qExt(c), qMk(c), qTS(c)
  ensures old(qsn(c)) - old(qrn(c)) < cap(c)
  set qval(c)[k] := ite(k == old(qsn(c)), ref(v), old(qval(c, k)))
  set qLen(c)[k] := ite(k == old(qsn(c)), len(v.Payload), old(qLen(c, k)))
  set qEl(c)[k] := ite(k == old(qsn(c)), ctn(v.Payload), old(qEl(c, k)))
  set qSN(c)[k] := ite(k == old(qsn(c)), v.SequenceNumber, old(qSN(c, k)))
  set qTS(c)[k] := ite(k == old(qsn(c)), v.Timestamp, old(qTS(c, k)))
  set qMk(c)[k] := ite(k == old(qsn(c)), b2i(v.Marker), old(qMk(c, k)))
  set qExt(c)[k] := ite(k == old(qsn(c)), extid(ref(v.Extensions)), old(qExt(c, k)))
  set qPay(c)[k] := ite(k == old(qsn(c)), bytes(v.Payload), old(qPay(c, k)))
  set qsn(c) := old(qsn(c)) + 1
iface readStream.recv.nosend(r, c)
  ensures qsn(c) - qrn(c) >= cap(c)
iface readStream.recv.len(r, c) n
  ensures n == qsn(c) - qrn(c)
iface readStream.recv.recv(r, c) v, ok
  modifies qrn(c)
  ensures ok && v != nil && old(qrn(c)) < qsn(c) && ref(v) == qval(c, old(qrn(c))) && bytes(v.Payload) == qPay(c, old(qrn(c))) && len(v.Payload) == qLen(c, old(qrn(c))) && ctn(v.Payload) == qEl(c, old(qrn(c))) && v.SequenceNumber == qSN(c, old(qrn(c))) && v.Timestamp == qTS(c, old(qrn(c))) && b2i(v.Marker) == qMk(c, old(qrn(c))) && extid(ref(v.Extensions)) == qExt(c, old(qrn(c)))
  set qrn(c) := old(qrn(c)) + 1
iface readStream.copied.send(r, c, v)
  modifies cpn(c), cpv(c)
  set cpv(c)[k] := ite(k == old(cpn(c)), v, old(cpv(c, k)))
  set cpn(c) := old(cpn(c)) + 1
// the reader waits for a copy only while it is registered and nothing is queued; whoever sends has filled its header and payload
iface readStream.copied.recv(r, c) v, ok
  requires registered: r.hdr != nil
  requires order: qsn(r.recv) == qrn(r.recv)
  modifies r.hdr, r.payload
  ensures ok && 0 <= v && v <= len(old(r.payload)) && r.hdr == nil

// the session's end
ghost ended 1
iface readStream.closed.recv(r, c) v, ok
  modifies ended(c)
  ensures ended(c) != 0
extern core.Fuse.Watch(f) c
  ensures c != nil
nonnil readStream.recv, readStream.copied
iface rtp.chan.make(c)
  ensures qsn(c) == 0 && qrn(c) == 0 && cpn(c) == 0
ghost dgTo 2   // the stream the k-th datagram was handed to
// and the packet it was handed as
ghost hvSN 2
ghost hvTS 2
ghost hvPT 2
ghost hvMk 2
ghost hvPay 2
ghost hvExt 2
def qok(r) = 0 <= qrn(r.recv) && qrn(r.recv) <= qsn(r.recv)
def hdrIs(h, q) = h.SequenceNumber == q.SequenceNumber && h.Timestamp == q.Timestamp && h.PayloadType == q.PayloadType && h.Marker == q.Marker && h.SSRC == q.SSRC && h.Version == q.Version && h.Padding == q.Padding && h.Extension == q.Extension && h.ExtensionProfile == q.ExtensionProfile && len(h.Extensions) == len(q.Extensions) && ctn(h.CSRC) == ctn(q.CSRC) && extid(ref(h.Extensions)) == extid(ref(q.Extensions))

func readStream.write(r, p)
  prop C27
  requires qok(r)
  modifies r.hdr, r.payload, r.hdr.*, elems(r.payload), p.Header, p.Payload, qsn(r.recv), qval(r.recv), qPay(r.recv), qLen(r.recv), qEl(r.recv), qSN(r.recv), qExt(r.recv), qMk(r.recv), qTS(r.recv), cpn(r.copied), cpv(r.copied), dgTo(0), ended(r.closed), hvSN(0), hvTS(0), hvPT(0), hvMk(0), hvPay(0), hvExt(0)
  set hvSN(0)[k] := ite(k == dgN() - 1, old(p.SequenceNumber), old(hvSN(0, k)))
  set hvTS(0)[k] := ite(k == dgN() - 1, old(p.Timestamp), old(hvTS(0, k)))
  set hvPT(0)[k] := ite(k == dgN() - 1, old(p.PayloadType), old(hvPT(0, k)))
  set hvMk(0)[k] := ite(k == dgN() - 1, old(b2i(p.Marker)), old(hvMk(0, k)))
  set hvPay(0)[k] := ite(k == dgN() - 1, old(bytes(p.Payload)), old(hvPay(0, k)))
  set hvExt(0)[k] := ite(k == dgN() - 1, old(extid(ref(p.Extensions))), old(hvExt(0, k)))
  set dgTo(0)[k] := ite(k == dgN() - 1, ref(r), old(dgTo(0, k)))
  ensures taken: r.hdr == nil
  ensures queued: old(r.hdr) == nil && old(qsn(r.recv) - qrn(r.recv) < cap(r.recv)) ==> qsn(r.recv) == old(qsn(r.recv)) + 1 && qval(r.recv, old(qsn(r.recv))) == ref(p) && qPay(r.recv, old(qsn(r.recv))) == old(bytes(p.Payload)) && hdrIs(p, old(p))
  ensures keep: forall(k, 0, old(qsn(r.recv)), qval(r.recv, k) == old(qval(r.recv, k)) && qPay(r.recv, k) == old(qPay(r.recv, k)))
  ensures most: qsn(r.recv) <= old(qsn(r.recv)) + 1 && (old(r.hdr) != nil ==> qsn(r.recv) == old(qsn(r.recv))) && qok(r)
  ensures direct: old(r.hdr) != nil ==> hdrIs(old(r.hdr), old(p)) && (len(old(r.hdr).Extensions) > 0 ==> extown(ref(old(r.hdr).Extensions)) == 1)
  ensures copied: old(r.hdr) != nil ==> forall(k, 0, min(len(old(r.payload)), old(len(p.Payload))), old(r.payload)[k] == old(p.Payload[k]))
  ensures told: cpn(r.copied) > old(cpn(r.copied)) ==> old(r.hdr) != nil && cpn(r.copied) == old(cpn(r.copied)) + 1 && cpv(r.copied, old(cpn(r.copied))) == min(len(old(r.payload)), old(len(p.Payload)))
  ensures handed: old(r.hdr) != nil ==> cpn(r.copied) == old(cpn(r.copied)) + 1 || ended(r.closed) != 0

func readStream.ReadRTP(r, h, payload) n, err
  prop C27
  requires qok(r)
  modifies r.hdr, r.payload, h.*, elems(payload), qrn(r.recv), ended(r.closed)
  ensures fifo: qrn(r.recv) == old(qrn(r.recv)) || qrn(r.recv) == old(qrn(r.recv)) + 1
  ensures taken: qrn(r.recv) > old(qrn(r.recv)) ==> err == nil
  ensures first: old(qrn(r.recv) < qsn(r.recv)) && err == nil ==> qrn(r.recv) == old(qrn(r.recv)) + 1
  ensures head: qrn(r.recv) > old(qrn(r.recv)) ==> h.SequenceNumber == qSN(r.recv, old(qrn(r.recv))) && h.Timestamp == qTS(r.recv, old(qrn(r.recv))) && b2i(h.Marker) == qMk(r.recv, old(qrn(r.recv))) && extid(ref(h.Extensions)) == qExt(r.recv, old(qrn(r.recv)))
  ensures body: qrn(r.recv) > old(qrn(r.recv)) ==> n == min(len(payload), qLen(r.recv, old(qrn(r.recv)))) && forall(k, 0, n, payload[k] == elemof(qEl(r.recv, old(qrn(r.recv))), k))
  ensures end: err != nil ==> err == io.EOF && n == 0 && ended(r.closed) != 0
  ensures room: 0 <= n && n <= len(payload)
  ensures mine: old(r.hdr) != h ==> r.hdr != h
  ensures inv: qok(r)

def fits(i) = dgLen(i) <= 1500 && dgparses(dgCtn(i))
def sessok(s) = s.bySSRC != nil && len(s.rbuf) >= 1501 && forall(k, 0, 4294967296, dom(s.bySSRC, k) ==> s.bySSRC[k] != nil && s.bySSRC[k].ssrc == k && qok(s.bySSRC[k]))

func session.AcceptStream(s) rs, ssrc, err
  prop C27
  requires sessok(s) && dgN() >= 0 && dgN() < 1099511627776 && forall(k, dgN(), 1099511627776, dgTo(0, k) == 0)
  requires forall(k, 0, 4294967296, dom(s.bySSRC, k) ==> existed(s.bySSRC[k]) && existed(s.bySSRC[k].recv))
  modifiesany
  ensures inv: sessok(s)
  ensures skipped: forall(i, old(dgN()), dgN(), !fits(i) ==> dgTo(0, i) == 0)
  ensures given: forall(i, old(dgN()), dgN(), fits(i) ==> dgTo(0, i) != 0 && dom(s.bySSRC, dgSSRC(dgCtn(i))) && dgTo(0, i) == ref(s.bySSRC[dgSSRC(dgCtn(i))]))
  ensures intact: forall(i, old(dgN()), dgN(), fits(i) ==> hvSN(0, i) == dgSN(dgCtn(i)) && hvTS(0, i) == dgTS(dgCtn(i)) && hvPT(0, i) == dgPT(dgCtn(i)) && hvMk(0, i) == dgMk(dgCtn(i)) && hvPay(0, i) == dgPay(dgCtn(i)) && hvExt(0, i) == dgExt(dgCtn(i)))
  ensures known: forall(i, old(dgN()), ite(err == nil, dgN() - 1, dgN()), forall(k, 0, 4294967296, fits(i) && k == dgSSRC(dgCtn(i)) ==> old(dom(s.bySSRC, k))))
  ensures new: err == nil ==> dgN() > old(dgN()) && fits(dgN() - 1) && ssrc == dgSSRC(dgCtn(dgN() - 1)) && !old(dom(s.bySSRC, ssrc)) && typeis(rs, *readStream) && unbox(rs) == s.bySSRC[ssrc]
  ensures same: forall(k, 0, 4294967296, err != nil || k != ssrc ==> dom(s.bySSRC, k) == old(dom(s.bySSRC, k)) && s.bySSRC[k] == old(s.bySSRC[k]))
  ensures failed: err != nil ==> sid(err) == dgErr() && rs == nil
  ensures past: forall(i, 0, old(dgN()), dgTo(0, i) == old(dgTo(0, i)))
  loop cnt: dgN() >= old(dgN()) && dgN() >= 0
  loop inv: sessok(s)
  loop skipped: forall(i, old(dgN()), dgN(), !fits(i) ==> dgTo(0, i) == 0)
  loop fresh: forall(i, dgN(), 1099511627776, dgTo(0, i) == 0)
  loop given: forall(i, old(dgN()), dgN(), fits(i) ==> dgTo(0, i) != 0 && dom(s.bySSRC, dgSSRC(dgCtn(i))) && dgTo(0, i) == ref(s.bySSRC[dgSSRC(dgCtn(i))]))
  loop intact: forall(i, old(dgN()), dgN(), fits(i) ==> hvSN(0, i) == dgSN(dgCtn(i)) && hvTS(0, i) == dgTS(dgCtn(i)) && hvPT(0, i) == dgPT(dgCtn(i)) && hvMk(0, i) == dgMk(dgCtn(i)) && hvPay(0, i) == dgPay(dgCtn(i)) && hvExt(0, i) == dgExt(dgCtn(i)))
  loop past: forall(i, 0, old(dgN()), dgTo(0, i) == old(dgTo(0, i)))
  loop map: s.bySSRC == old(s.bySSRC) && s.rbuf == old(s.rbuf)
  loop same: forall(k, 0, 4294967296, dom(s.bySSRC, k) == old(dom(s.bySSRC, k)) && s.bySSRC[k] == old(s.bySSRC[k]))
  loop known: forall(i, old(dgN()), dgN(), forall(k, 0, 4294967296, fits(i) && k == dgSSRC(dgCtn(i)) ==> old(dom(s.bySSRC, k))))

func NewSession(log, conn) r
  prop C27
  requires conn != nil
  ensures made: typeis(r, *session) && unbox(r).conn == conn && unbox(r).w.conn == conn && len(unbox(r).rbuf) >= 1501 && unbox(r).bySSRC != nil && len(unbox(r).bySSRC) == 0
  ensures own: fresh(unbox(r).rbuf) && fresh(unbox(r).w) && fresh(unbox(r).bySSRC)

func session.OpenWriteStream(s) w, err
  prop C27
  ensures same: err == nil && typeis(w, *writeStream) && unbox(w, *writeStream) == s.w
