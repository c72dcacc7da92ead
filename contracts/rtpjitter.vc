package rtp
// C28: handler behind a jitter buffer

// a buffered channel: number of values sent and received so far, and the values
ghost qsn 1
ghost qrn 1
ghost qval 2
iface jitterHandler.err.send(p, c, v)
  requires some: v != nil
  modifies qsn(c), qval(c)
  ensures old(qsn(c)) - old(qrn(c)) < cap(c)
  set qval(c)[k] := ite(k == old(qsn(c)), sid(v), old(qval(c, k)))
  set qsn(c) := old(qsn(c)) + 1
iface jitterHandler.err.nosend(p, c)
  ensures qsn(c) - qrn(c) >= cap(c)
iface jitterHandler.err.recv(p, c) v, ok
  modifies qrn(c)
  ensures old(qrn(c)) < qsn(c) && sid(v) == qval(c, old(qrn(c))) && v != nil
  set qrn(c) := old(qrn(c)) + 1
iface jitterHandler.err.norecv(p, c)
  ensures qrn(c) == qsn(c)

nonnil jitterHandler.h, jitterHandler.buf, jitterHandler.err
def errq(r) = qrn(r.err) >= 0 && qrn(r.err) <= qsn(r.err)
// what deliveries to a handler may do: every error is queued if the queue was empty, nothing else is
def delivered(r) = hrn(r.h) >= old(hrn(r.h)) && qsn(r.err) >= old(qsn(r.err)) && qsn(r.err) - old(qsn(r.err)) <= hrErrs(r.h) - old(hrErrs(r.h)) && (hrErrs(r.h) > old(hrErrs(r.h)) ==> qsn(r.err) > qrn(r.err)) && forall(k, 0, old(qsn(r.err)), qval(r.err, k) == old(qval(r.err, k)))
def handed(h, i, p) = hrH(h, i) == ref(p.Header) && hrPay(h, i) == bytes(p.Payload)

func jitterHandler.handleRTP(r, p)
  prop C28
  requires cap(r.err) >= 1 && errq(r)
  modifies hrmod(r.h), qsn(r.err), qval(r.err)
  ensures one: hrn(r.h) == old(hrn(r.h)) + 1 && handed(r.h, old(hrn(r.h)), p)
  ensures keep: forall(k, 0, old(hrn(r.h)), hrH(r.h, k) == old(hrH(r.h, k)) && hrPay(r.h, k) == old(hrPay(r.h, k)))
  ensures errs: delivered(r) && errq(r)
  ensures which: qsn(r.err) > old(qsn(r.err)) ==> qval(r.err, old(qsn(r.err))) == hrErr(r.h, old(hrn(r.h)))

// ---- the jitter buffer, as its handler uses it. Assumed here: pushing a packet into a buffer calls only the buffer's callback, any number of
// times; the callback of a wired buffer is the function literal of HandleJitter, whose contract is below.
logic cbH
logic cbQ
ghost jbLat 1
ghost jbDep 1
ghost jbFn 1 // the callback the buffer was made with
ghost jbn 1 // packets pushed into a buffer, and the fields and payload of each
ghost jbSN 2
ghost jbTS 2
ghost jbPT 2
ghost jbMk 2
ghost jbPad 2
ghost jbExt 2
ghost jbVer 2
ghost jbSSRC 2
ghost jbPay 2
ghost jbClosed 1
modset jbmod(b) = jbn(b), jbSN(b), jbTS(b), jbPT(b), jbMk(b), jbPad(b), jbExt(b), jbVer(b), jbSSRC(b), jbPay(b)
def wired(r) = cbH(r.buf) == sid(r.h) && cbQ(r.buf) == ref(r.err)

func HandleJitter$1(packets)
  prop C28
  requires wired: wired(handler)
  requires cap(handler.err) >= 1 && errq(handler) && forall(k, 0, len(packets), packets[k].Packet != nil)
  requires hrn(handler.h) >= 0
  modifies hrmod(handler.h), qsn(handler.err), qval(handler.err)
  ensures all: hrn(handler.h) == old(hrn(handler.h)) + len(packets)
  ensures inorder: forall(k, old(hrn(handler.h)), hrn(handler.h), handed(handler.h, k, packets[k - old(hrn(handler.h))].Packet))
  ensures keep: forall(k, 0, old(hrn(handler.h)), hrH(handler.h, k) == old(hrH(handler.h, k)) && hrPay(handler.h, k) == old(hrPay(handler.h, k)))
  ensures errs: delivered(handler) && errq(handler)
  loop all: hrn(handler.h) == atloop(hrn(handler.h)) + $i
  loop all1: hrn(handler.h) == atloop(hrn(handler.h)) + $i + 1
  loop inorder: forall(k, old(hrn(handler.h)), hrn(handler.h), handed(handler.h, k, packets[k - old(hrn(handler.h))].Packet))
  loop keep: forall(k, 0, old(hrn(handler.h)), hrH(handler.h, k) == old(hrH(handler.h, k)) && hrPay(handler.h, k) == old(hrPay(handler.h, k)))
  loop errs: delivered(handler) && errq(handler)

func HandleJitter(h, opts) r
  prop C28
  requires h != nil
  ensures made: fresh(unbox(r, *jitterHandler)) && typeis(r, *jitterHandler) && unbox(r, *jitterHandler).h == h && unbox(r, *jitterHandler).buf != nil && unbox(r, *jitterHandler).err != nil
  ensures room: cap(unbox(r, *jitterHandler).err) >= 1
  ensures callback: boolfn("isfn.HandleJitter$1", jbFn(unbox(r, *jitterHandler).buf))
  ensures setup: jbLat(unbox(r, *jitterHandler).buf) == 60000000 && jbDep(unbox(r, *jitterHandler).buf) == 1

func jitterHandler.HandleRTP(r, h, payload) err
  prop C28
  requires wired: wired(r)
  requires cap(r.err) >= 1 && errq(r) && hrn(r.h) >= 0 && hrErrs(r.h) >= 0
  modifies jbmod(r.buf), hrmod(r.h), qsn(r.err), qval(r.err), qrn(r.err)
  ensures one: jbn(r.buf) == old(jbn(r.buf)) + 1
  ensures through: jbSN(r.buf, old(jbn(r.buf))) == h.SequenceNumber && jbTS(r.buf, old(jbn(r.buf))) == h.Timestamp && jbPT(r.buf, old(jbn(r.buf))) == h.PayloadType && jbMk(r.buf, old(jbn(r.buf))) == b2i(h.Marker) && jbPad(r.buf, old(jbn(r.buf))) == b2i(h.Padding) && jbExt(r.buf, old(jbn(r.buf))) == b2i(h.Extension) && jbVer(r.buf, old(jbn(r.buf))) == h.Version && jbSSRC(r.buf, old(jbn(r.buf))) == h.SSRC && jbPay(r.buf, old(jbn(r.buf))) == bytes(payload)
  // an error of the handler comes back from this call or, if another is pending, from a later one; without errors nothing is reported
  ensures surfaced: hrErrs(r.h) > old(hrErrs(r.h)) ==> err != nil
  ensures pending: old(qsn(r.err) > qrn(r.err)) ==> err != nil && sid(err) == old(qval(r.err, qrn(r.err)))
  ensures none: old(qsn(r.err) == qrn(r.err)) && hrErrs(r.h) == old(hrErrs(r.h)) ==> err == nil
  ensures fifo: err != nil ==> sid(err) == qval(r.err, old(qrn(r.err))) && qrn(r.err) == old(qrn(r.err)) + 1
  ensures silent: err == nil ==> qrn(r.err) == old(qrn(r.err)) && qsn(r.err) == qrn(r.err)
  ensures inv: errq(r)

ghost hclosed 1
iface HandlerCloser.Close(r)
  set hclosed(r) := old(hclosed(r)) + 1

func jitterHandler.Close(r)
  prop C28
  modifies jbClosed(r.buf), hclosed(r.h)
  ensures both: jbClosed(r.buf) == old(jbClosed(r.buf)) + 1 && hclosed(r.h) == old(hclosed(r.h)) + 1

// every packet is a sample of its own and its payload is taken as it is
func audioDepacketizer.Unmarshal(d, packet) out, err
  prop C28
  ensures same: err == nil && out == packet
func audioDepacketizer.IsPartitionHead(d, payload) r
  prop C28
  ensures r
func audioDepacketizer.IsPartitionTail(d, marker, payload) r
  prop C28
  ensures r
