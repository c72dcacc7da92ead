package media
// C25: synchronous pipe

guard onceError.Mutex: err
// other writers make offers while the write lock is free
guard pipe.wrMu: ofn, taken
ghost onceDone 1 // sync.Once: has its function run
// offers of the writer: which slice, and how many elements the reader had taken before
ghost ofn 1
ghost ofRef 2
ghost ofOff 2
ghost ofLen 2
ghost ofAt 2
ghost taken 1  // elements acknowledged to the writer in all
// what the reader does: offers received, acknowledgements sent
ghost rcn 1
ghost rcLen 2
ghost rcAck 2
ghost pclosed 1 // done is closed

// one write at a time offers its data
iface pipe.wrCh.send(p, c, v)
  holds p.wrMu
  set ofRef(p)[k] := ite(k == old(ofn(p)), ref(v), old(ofRef(p, k)))
  set ofOff(p)[k] := ite(k == old(ofn(p)), off(v), old(ofOff(p, k)))
  set ofLen(p)[k] := ite(k == old(ofn(p)), len(v), old(ofLen(p, k)))
  set ofAt(p)[k] := ite(k == old(ofn(p)), taken(p), old(ofAt(p, k)))
  set ofn(p) := old(ofn(p)) + 1
// the reader's side of the protocol: an acknowledgement covers at most what was offered (see pipe.read, ack)
iface pipe.rdCh.recv(p, c) v, ok
  modifies taken(p)
  ensures ok && 0 <= v && v <= ofLen(p, ofn(p) - 1)
  set taken(p) := old(taken(p)) + v
// the writer's side: the offered slice
iface pipe.wrCh.recv(p, c) v, ok
  ensures ok
  set rcLen(p)[k] := ite(k == old(rcn(p)), len(v), old(rcLen(p, k)))
  set rcRef(p)[k] := ite(k == old(rcn(p)), ref(v), old(rcRef(p, k)))
  set rcOff(p)[k] := ite(k == old(rcn(p)), off(v), old(rcOff(p, k)))
  set rcCtn(p)[k] := ite(k == old(rcn(p)), contents(v), old(rcCtn(p, k)))
  set rcn(p) := old(rcn(p)) + 1
ghost rcCtn 2
ghost rcRef 2
ghost rcOff 2
iface pipe.rdCh.send(p, c, v)
  requires ack: rcn(p) == akn(p) + 1 && 0 <= v && v <= rcLen(p, rcn(p) - 1)
  set rcAck(p)[k] := ite(k == old(akn(p)), v, old(rcAck(p, k)))
  set akn(p) := old(akn(p)) + 1
ghost akn 1
// closing: done is closed after a reason was stored, and the first reason stays
iface pipe.done.recv(p, c) v, ok
  modifies p.rerr.err, p.werr.err, pclosed(c), onceDone(addr(p.once))
  ensures pclosed(c) != 0 && onceDone(addr(p.once)) != 0 && (p.rerr.err != nil || p.werr.err != nil) && (old(p.rerr.err) != nil ==> p.rerr.err == old(p.rerr.err)) && (old(p.werr.err) != nil ==> p.werr.err == old(p.werr.err))
iface pipe.done.norecv(p, c)
  ensures pclosed(c) == 0
iface pipe.done.close(p, c)
  requires once: pclosed(c) == 0
  requires reason: p.rerr.err != nil || p.werr.err != nil
  set pclosed(c) := 1

def rclosed(p) = ite(p.rerr.err == nil && p.werr.err != nil, p.werr.err, io.ErrClosedPipe)
def wclosederr(p) = ite(p.werr.err == nil && p.rerr.err != nil, p.rerr.err, io.ErrClosedPipe)
def pok(p) = p.wrCh != nil && p.rdCh != nil && p.done != nil && (pclosed(p.done) != 0 <==> onceDone(addr(p.once)) != 0) && (pclosed(p.done) != 0 ==> p.rerr.err != nil || p.werr.err != nil)

func onceError.Store(a, err)
  prop C25
  nilable err
  modifies a.err
  ensures first: a.err == ite(old(a.err) != nil, old(a.err), err)
func onceError.Load(a) r
  prop C25
  ensures r == a.err

func pipe.closeRead(p, err) r
  prop C25
  nilable err
  requires pok(p)
  modifies p.rerr.err, pclosed(p.done), onceDone(addr(p.once))
  ensures nil: r == nil
  ensures reason: p.rerr.err == ite(old(p.rerr.err) != nil, old(p.rerr.err), ite(err == nil, io.ErrClosedPipe, err))
  ensures closed: pclosed(p.done) != 0 && pok(p)
func pipe.closeWrite(p, err) r
  prop C25
  nilable err
  requires pok(p)
  modifies p.werr.err, pclosed(p.done), onceDone(addr(p.once))
  ensures nil: r == nil
  ensures reason: p.werr.err == ite(old(p.werr.err) != nil, old(p.werr.err), ite(err == nil, io.EOF, err))
  ensures closed: pclosed(p.done) != 0 && pok(p)
func pipe.readCloseError(p) r
  prop C25
  ensures r == rclosed(p)
func pipe.writeCloseError(p) r
  prop C25
  ensures r == wclosederr(p)

func pipe.read(p, b) n, err
  prop C25
  requires pok(p) && akn(p) == rcn(p)
  modifies elems(b), rcn(p), rcLen(p), rcRef(p), rcOff(p), rcCtn(p), rcAck(p), akn(p), p.rerr.err, p.werr.err, pclosed(p.done), onceDone(addr(p.once))
  ensures closed: old(pclosed(p.done)) != 0 ==> err != nil
  ensures fail: err != nil ==> n == 0 && sid(err) == sid(rclosed(p)) && rcn(p) == old(rcn(p)) && akn(p) == old(akn(p))
  ensures ok: err == nil ==> rcn(p) == old(rcn(p)) + 1 && akn(p) == rcn(p) && rcAck(p, old(rcn(p))) == n && n == min(len(b), rcLen(p, old(rcn(p))))
  ensures data: err == nil ==> forall(k, 0, n, b[k] == elemof(rcCtn(p, old(rcn(p))), k))
  ensures keep: forall(k, 0, old(rcn(p)), rcAck(p, k) == old(rcAck(p, k)) && rcLen(p, k) == old(rcLen(p, k)))
  ensures inv: pok(p)

// what has been handed over in the running write
def got(p) = taken(p) - old(taken(p))
func pipe.write(p, b) n, err
  prop C25
  requires pok(p)
  modifies ofn(p), ofRef(p), ofOff(p), ofLen(p), ofAt(p), taken(p), p.rerr.err, p.werr.err, pclosed(p.done), onceDone(addr(p.once))
  ensures closed: old(pclosed(p.done)) != 0 ==> err != nil && n == 0 && ofn(p) == old(ofn(p))
  ensures count: n == got(p) && 0 <= n && n <= len(b)
  ensures all: err == nil ==> n == len(b) && ofn(p) > old(ofn(p))
  ensures reason: err != nil ==> sid(err) == sid(wclosederr(p)) && pclosed(p.done) != 0
  // every offer is the rest that has not been taken
  ensures offers: forall(k, old(ofn(p)), ofn(p), ofRef(p, k) == ref(b) && ofOff(p, k) == off(b) + ofAt(p, k) - old(taken(p)) && ofLen(p, k) == len(b) - (ofAt(p, k) - old(taken(p))))
  ensures inv: pok(p)
  loop inv: pok(p)
  loop n: $i == got(p) && ofn(p) >= old(ofn(p))
  loop rest: ref($s) == ref(b) && off($s) == off(b) + got(p) && len($s) == len(b) - got(p)
  loop some: $b || ofn(p) > old(ofn(p))
  loop offers: forall(k, old(ofn(p)), ofn(p), ofRef(p, k) == ref(b) && ofOff(p, k) == off(b) + ofAt(p, k) - old(taken(p)) && ofLen(p, k) == len(b) - (ofAt(p, k) - old(taken(p))))

func Pipe(sampleRate) r, w
  prop C25
  ensures ok: fresh(w) && r == addr(w.r) && w.r.pipe.wrCh != nil && w.r.pipe.rdCh != nil && w.r.pipe.done != nil && cap(w.r.pipe.wrCh) == 0 && cap(w.r.pipe.rdCh) == 0 && w.sampleRate == sampleRate && w.r.pipe.rerr.err == nil && w.r.pipe.werr.err == nil

func PipeReader.ReadSample(r, data) n, err
  prop C25
  requires pok(r.pipe) && akn(r.pipe) == rcn(r.pipe)
  modifies elems(data), rcn(r.pipe), rcLen(r.pipe), rcRef(r.pipe), rcOff(r.pipe), rcCtn(r.pipe), rcAck(r.pipe), akn(r.pipe), r.pipe.rerr.err, r.pipe.werr.err, pclosed(r.pipe.done), onceDone(addr(r.pipe.once))
  ensures closed: old(pclosed(r.pipe.done)) != 0 ==> err != nil
  ensures fail: err != nil ==> n == 0 && sid(err) == sid(rclosed(r.pipe))
  ensures ok: err == nil ==> rcn(r.pipe) == old(rcn(r.pipe)) + 1 && rcAck(r.pipe, old(rcn(r.pipe))) == n && n == min(len(data), rcLen(r.pipe, old(rcn(r.pipe))))
  ensures data: err == nil ==> forall(k, 0, n, data[k] == elemof(rcCtn(r.pipe, old(rcn(r.pipe))), k))
func PipeReader.CloseWithError(r, err) e
  prop C25
  nilable err
  requires pok(r.pipe)
  modifies r.pipe.rerr.err, pclosed(r.pipe.done), onceDone(addr(r.pipe.once))
  ensures e == nil && r.pipe.rerr.err == ite(old(r.pipe.rerr.err) != nil, old(r.pipe.rerr.err), ite(err == nil, io.ErrClosedPipe, err)) && pclosed(r.pipe.done) != 0
func PipeReader.Close(r) e
  prop C25
  requires pok(r.pipe)
  modifies r.pipe.rerr.err, pclosed(r.pipe.done), onceDone(addr(r.pipe.once))
  ensures e == nil && r.pipe.rerr.err == ite(old(r.pipe.rerr.err) != nil, old(r.pipe.rerr.err), io.ErrClosedPipe) && pclosed(r.pipe.done) != 0
func PipeWriter.WriteSample(w, data) err
  prop C25
  requires pok(w.r.pipe)
  modifies ofn(w.r.pipe), ofRef(w.r.pipe), ofOff(w.r.pipe), ofLen(w.r.pipe), ofAt(w.r.pipe), taken(w.r.pipe), w.r.pipe.rerr.err, w.r.pipe.werr.err, pclosed(w.r.pipe.done), onceDone(addr(w.r.pipe.once))
  ensures closed: old(pclosed(w.r.pipe.done)) != 0 ==> err != nil
  ensures all: err == nil ==> taken(w.r.pipe) - old(taken(w.r.pipe)) == len(data)
  ensures reason: err != nil ==> sid(err) == sid(wclosederr(w.r.pipe))
func PipeWriter.CloseWithError(w, err) e
  prop C25
  nilable err
  requires pok(w.r.pipe)
  modifies w.r.pipe.werr.err, pclosed(w.r.pipe.done), onceDone(addr(w.r.pipe.once))
  ensures e == nil && w.r.pipe.werr.err == ite(old(w.r.pipe.werr.err) != nil, old(w.r.pipe.werr.err), ite(err == nil, io.EOF, err)) && pclosed(w.r.pipe.done) != 0
func PipeWriter.Close(w) e
  prop C25
  requires pok(w.r.pipe)
  modifies w.r.pipe.werr.err, pclosed(w.r.pipe.done), onceDone(addr(w.r.pipe.once))
  ensures e == nil && w.r.pipe.werr.err == ite(old(w.r.pipe.werr.err) != nil, old(w.r.pipe.werr.err), io.EOF) && pclosed(w.r.pipe.done) != 0
func PipeWriter.SampleRate(w) r
  prop C25
  ensures r == w.sampleRate
