package jitter
// how the users of a jitter buffer see it (C28)
func NewBuffer(depacketizer, latency, fnc, opts) b
  trusted
  ensures fresh(b)
  set jbFn(b) := fnc
  set jbLat(b) := latency
  set jbDep(b) := ite(typeis(depacketizer, rtp.audioDepacketizer), 1, 0)

func Buffer.Push(b, pkt)
  trusted
  modifies jbmod(b), hrmod(cbH(b)), qsn(cbQ(b)), qval(cbQ(b))
  ensures hrn(cbH(b)) >= old(hrn(cbH(b))) && hrErrs(cbH(b)) >= old(hrErrs(cbH(b))) && qsn(cbQ(b)) >= old(qsn(cbQ(b))) && qsn(cbQ(b)) - old(qsn(cbQ(b))) <= hrErrs(cbH(b)) - old(hrErrs(cbH(b)))
  ensures (hrErrs(cbH(b)) > old(hrErrs(cbH(b))) ==> qsn(cbQ(b)) > qrn(cbQ(b))) && forall(k, 0, old(qsn(cbQ(b))), qval(cbQ(b), k) == old(qval(cbQ(b), k)))
  set jbSN(b)[k] := ite(k == old(jbn(b)), pkt.SequenceNumber, old(jbSN(b, k)))
  set jbTS(b)[k] := ite(k == old(jbn(b)), pkt.Timestamp, old(jbTS(b, k)))
  set jbPT(b)[k] := ite(k == old(jbn(b)), pkt.PayloadType, old(jbPT(b, k)))
  set jbMk(b)[k] := ite(k == old(jbn(b)), ite(pkt.Marker, 1, 0), old(jbMk(b, k)))
  set jbPad(b)[k] := ite(k == old(jbn(b)), ite(pkt.Padding, 1, 0), old(jbPad(b, k)))
  set jbExt(b)[k] := ite(k == old(jbn(b)), ite(pkt.Extension, 1, 0), old(jbExt(b, k)))
  set jbVer(b)[k] := ite(k == old(jbn(b)), pkt.Version, old(jbVer(b, k)))
  set jbSSRC(b)[k] := ite(k == old(jbn(b)), pkt.SSRC, old(jbSSRC(b, k)))
  set jbPay(b)[k] := ite(k == old(jbn(b)), bytes(pkt.Payload), old(jbPay(b, k)))
  set jbn(b) := old(jbn(b)) + 1

func Buffer.Close(b)
  trusted
  modifies jbClosed(b)
  set jbClosed(b) := old(jbClosed(b)) + 1

// ---- C05, C06, C07: the buffer itself
guard Buffer.mu: initialized, prevSN, head, tail, pool, size
nonnil Buffer.stats, Buffer.depacketizer, Buffer.onPacket, Buffer.timer

ghost wh 2 // where a packet slot is: 1 in the list of the buffer, 2 in its pool, 3 taken out of one and not yet in the other
ghost ob 1 // the buffer a slot belongs to
ghost ix 2 // position of a listed slot; positions count from the first packet ever removed
ghost nd 2 // slot at a position
ghost lo 1 // position of the head, and one past the tail
ghost hi 1
ghost nw 1 // the slot the last packet went to
ghost px 2 // height of a slot in the pool, and number of slots there
ghost pnd 2
ghost pn 1
ghost qs 2 // sequence number of the packet in a slot
ghost bysn 2 // slot of a buffered sequence number

// the packets removed so far, by position: sequence number, the one removed before (as the buffer remembers it), whether delivery had started,
// packet, arrival time, marks, whether it was handed to the callback
ghost hs 2
ghost hv 2
ghost hn 2
ghost hk 2
ghost hr 2
ghost hb 2
ghost he 2
ghost hd 2
ghost hpad 2
ghost hem 2
ghost hc 2 // its frame was incomplete when it was removed
ghost hx 2 // it was dropped
ghost ndr 1 // number of packets dropped
ghost npx 2 // position of the j-th packet handed to the callback, its inverse, and their number
ghost nj 2
ghost npn 1
ghost la 1 // sequence numbers missing between removed packets
modset jhist(b) = hs(b), hv(b), hn(b), hk(b), hr(b), hb(b), he(b), hd(b), hpad(b), hem(b), npx(b), nj(b), npn(b), la(b), hc(b), hx(b)
def nx(q) = ref(as(q, *packet).next)
def pv(q) = ref(as(q, *packet).prev)
def sn(q) = as(q, *packet).extPacket.Packet.SequenceNumber
def d16(a, b) = ite(b >= a, b - a, b - a + 65536)
opaque bef(a, b) = d16(a, b) < 32768
opaque win(a, b) = d16(a, b) < 3000 || d16(b, a) < 3000
// a packet b that follows a: later, or too far away to tell
def flw(a, b) = !bef(b, a) || !win(a, b)
def sq(a) = 0 <= a && a < 65536
lemma [C05 C06 C07] winSym(a, b): win(a, b) == win(b, a)
lemma [C05 C06 C07] befAnti(a, b): sq(a) && sq(b) && bef(a, b) && win(a, b) && a != b ==> !bef(b, a)
lemma [C05 C06 C07] between(a, p, c): sq(a) && sq(p) && sq(c) && win(p, a) && !bef(p, a) && !win(p, c) && !bef(c, a) ==> !win(a, c)
lemma [C05 C06 C07] nextIn(a): sq(a) ==> bef(a, u16(a + 1)) && win(a, u16(a + 1)) && !bef(u16(a + 1), a)

def slot(b, q) = 0 < q && q + 1 <= top && ob(q) == ref(b)
def ends(b) = lo(b) <= hi(b) && ((b.head == nil) == (lo(b) == hi(b))) && ((b.tail == nil) == (lo(b) == hi(b))) && (b.head != nil ==> wh(b, ref(b.head)) == 1 && ix(b, ref(b.head)) == lo(b) && wh(b, ref(b.tail)) == 1 && ix(b, ref(b.tail)) == hi(b) - 1)
def inlist(b) = forallt(q, wh(b, q), ix(b, q), wh(b, q) != 0 ==> slot(b, q)) && forallt(q, wh(b, q), ix(b, q), wh(b, q) == 1 ==> lo(b) <= ix(b, q) && ix(b, q) < hi(b) && nd(b, ix(b, q)) == q && as(q, *packet).extPacket.Packet != nil && qs(b, q) == sn(q) && sq(qs(b, q)) && bysn(b, qs(b, q)) == q)
def nexts(b) = forallt(q, as(q, *packet).next, wh(b, q) == 1 && nx(q) == 0 ==> ix(b, q) == hi(b) - 1) && forallt(q, as(q, *packet).next, wh(b, q) == 1 && nx(q) != 0 ==> wh(b, nx(q)) == 1 && ix(b, nx(q)) == ix(b, q) + 1) && forallt(q, as(q, *packet).next, wh(b, q) == 1 && nx(q) != 0 ==> pv(nx(q)) == q)
def ords(b) = forallt(q, as(q, *packet).next, wh(b, q) == 1 && nx(q) != 0 ==> flw(qs(b, q), qs(b, nx(q)))) 
def discs(b) = forallt(q, as(q, *packet).next, wh(b, q) == 1 && nx(q) != 0 ==> (as(nx(q), *packet).discont == (as(nx(q), *packet).start && !win(qs(b, q), qs(b, nx(q))))))
def prevs(b) = forallt(q, as(q, *packet).prev, wh(b, q) == 1 ==> ite(pv(q) == 0, ix(b, q) == lo(b), wh(b, pv(q)) == 1 && ix(b, pv(q)) == ix(b, q) - 1 && nx(pv(q)) == q))
def nodes(b) = forallt(k, nd(b, k), lo(b) <= k && k < hi(b) ==> wh(b, nd(b, k)) == 1 && ix(b, nd(b, k)) == k)
def lst(b) = ends(b) && inlist(b) && nexts(b) && ords(b) && discs(b) && prevs(b) && nodes(b)
def pool(b) = (b.pool != nil ==> wh(b, ref(b.pool)) == 2 && px(b, ref(b.pool)) == pn(b) - 1) && forallt(q, as(q, *packet).next, wh(b, q) == 2 ==> px(b, q) < pn(b) && pnd(b, px(b, q)) == q && (nx(q) != 0 ==> wh(b, nx(q)) == 2 && px(b, nx(q)) == px(b, q) - 1))
def inits(b) = b.head != nil ==> ite(b.initialized, flw(b.prevSN, qs(b, ref(b.head))) && (b.head.discont == (b.head.start && !win(b.prevSN, qs(b, ref(b.head))))), b.head.discont ==> b.head.start)
def hist1(b) = lo(b) >= 0 && (lo(b) > 0 ==> b.prevSN == hs(b, lo(b) - 1)) && (b.initialized ==> lo(b) > 0)
def hist2(b) = forallt(k, hv(b, k), 0 <= k && k < lo(b) && hn(b, k) == 1 ==> flw(hv(b, k), hs(b, k))) && forallt(k, hv(b, k), 0 < k && k < lo(b) ==> hv(b, k) == hs(b, k - 1)) && forallt(k, hv(b, k), 0 <= k && k < lo(b) && hn(b, k) == 1 ==> (hd(b, k) == 1 <==> (hb(b, k) == 1 && !win(hv(b, k), hs(b, k)))))
def hist3(b) = npn(b) >= 0 && forallt(k, hem(b, k), nj(b, k), 0 <= k && k < lo(b) && hem(b, k) == 1 ==> hpad(b, k) == 0 && 0 <= nj(b, k) && nj(b, k) < npn(b) && npx(b, nj(b, k)) == k) && forallt(j, npx(b, j), 0 <= j && j < npn(b) ==> 0 <= npx(b, j) && npx(b, j) < lo(b) && nj(b, npx(b, j)) == j && hem(b, npx(b, j)) == 1) && forall(i j, 0 <= i && i < j && j < npn(b) ==> npx(b, i) < npx(b, j))
def hist(b) = hist1(b) && hist2(b) && hist3(b)
def J(b) = lst(b) && pool(b) && inits(b) && hist(b) && b.size == hi(b) - lo(b)

iface Depacketizer.IsPartitionHead(d, payload) r
  ensures r == boolfn("partition.head", sid(d), bytes(payload))
iface Depacketizer.IsPartitionTail(d, marker, payload) r
  ensures r == boolfn("partition.tail", sid(d), marker, bytes(payload))

func before(a, b) r
  prop C05, C06, C07
  reveal bef
  ensures r == bef(a, b)
func withinRange(a, b) r
  prop C05, C06, C07
  reveal win
  ensures r == win(a, b)

func Buffer.newPacket(b, pkt, receivedAt) p
  prop C05, C06, C07
  holds b.mu
  named packet, ExtPacket
  requires lst(b) && pool(b) && b.size < 1099511627776
  modifies b.size, b.pool, b.pool.*, wh(b), pn(b), nw(b), ob(), qs(b)
  set nw(b) := ref(p)
  set wh(b)[q] := ite(q == ref(p), 3, old(wh(b, q)))
  set pn(b) := ite(old(b.pool) == nil, old(pn(b)), old(pn(b)) - 1)
  set ob(p) := ref(b)
  set qs(b)[q] := ite(q == ref(p), pkt.SequenceNumber, old(qs(b, q)))
  ensures slot: old(ref(b.pool)) != 0 ==> ref(p) == old(ref(b.pool))
  ensures own: old(b.pool) == nil ==> fresh(p)
  ensures free: p != nil && forall(q, wh(b, q) == 1 ==> q != ref(p))
  ensures clean: p.prev == nil && p.next == nil && !p.discont && p.extPacket.Packet == pkt && p.extPacket.ReceivedAt == receivedAt
  ensures marks: p.start == boolfn("partition.head", sid(b.depacketizer), bytes(pkt.Payload)) && p.end == boolfn("partition.tail", sid(b.depacketizer), pkt.Marker, bytes(pkt.Payload))
  ensures size: b.size == old(b.size) + 1
  ensures pool: pool(b)
  ensures list: lst(b)

func Buffer.free(b, pkt)
  prop C05, C06, C07
  holds b.mu
  named packet, ExtPacket
  requires lst(b) && pool(b) && wh(b, ref(pkt)) == 3 && ob(ref(pkt)) == ref(b) && b.size > 0
  modifies b.size, b.pool, pkt.prev, pkt.next, pkt.extPacket, wh(b), px(b), pnd(b), pn(b)
  set wh(b)[q] := ite(q == ref(pkt), 2, old(wh(b, q)))
  set px(b)[q] := ite(q == ref(pkt), old(pn(b)), old(px(b, q)))
  set pnd(b)[k] := ite(k == old(pn(b)), ref(pkt), old(pnd(b, k)))
  set pn(b) := old(pn(b)) + 1
  ensures size: b.size == old(b.size) - 1
  ensures pool: pool(b)
  ensures list: lst(b)

func Buffer.popHead(b) c
  prop C05, C06, C07
  holds b.mu
  named packet
  requires lst(b) && pool(b) && inits(b) && hist(b) && b.head != nil
  modifies b.prevSN, b.head, b.tail, b.head.next.prev, wh(b), lo(b), jhist(b)
  set wh(b)[q] := ite(q == ref(c), 3, old(wh(b, q)))
  set lo(b) := old(lo(b)) + 1
  set hs(b)[k] := ite(k == old(lo(b)), old(qs(b, ref(b.head))), old(hs(b, k)))
  set hv(b)[k] := ite(k == old(lo(b)), old(b.prevSN), old(hv(b, k)))
  set hn(b)[k] := ite(k == old(lo(b)), ite(old(b.initialized), 1, 0), old(hn(b, k)))
  set hk(b)[k] := ite(k == old(lo(b)), old(ref(b.head.extPacket.Packet)), old(hk(b, k)))
  set hr(b)[k] := ite(k == old(lo(b)), old(b.head.extPacket.ReceivedAt), old(hr(b, k)))
  set hb(b)[k] := ite(k == old(lo(b)), ite(old(b.head.start), 1, 0), old(hb(b, k)))
  set he(b)[k] := ite(k == old(lo(b)), ite(old(b.head.end), 1, 0), old(he(b, k)))
  set hd(b)[k] := ite(k == old(lo(b)), ite(old(b.head.discont), 1, 0), old(hd(b, k)))
  set hpad(b)[k] := ite(k == old(lo(b)), ite(old(b.head.extPacket.Packet.Padding), 1, 0), old(hpad(b, k)))
  set hem(b)[k] := ite(k == old(lo(b)), ite(old(b.head.extPacket.Packet.Padding), 0, 1), old(hem(b, k)))
  set hc(b)[k] := ite(k == old(lo(b)), ite(old(partial(b)), 0, 1), old(hc(b, k)))
  set hx(b)[k] := ite(k == old(lo(b)), 0, old(hx(b, k)))
  set npx(b)[j] := ite(j == old(npn(b)), old(lo(b)), old(npx(b, j)))
  set nj(b)[k] := ite(k == old(lo(b)), old(npn(b)), old(nj(b, k)))
  set npn(b) := old(npn(b)) + ite(old(b.head.extPacket.Packet.Padding), 0, 1)
  set la(b) := old(la(b)) + ite(old(b.initialized && !b.head.discont), u16(old(qs(b, ref(b.head))) - old(b.prevSN) - 1), 0)
  ensures first: c == old(b.head) && b.prevSN == qs(b, ref(c)) && ref(b.head) == old(nx(ref(b.head)))
  ensures list: lst(b)
  ensures pool: pool(b)
  ensures linked: b.head != nil ==> flw(b.prevSN, qs(b, ref(b.head))) && (b.head.discont == (b.head.start && !win(b.prevSN, qs(b, ref(b.head)))))
  ensures inits: inits(b)
  ensures hist: hist(b)

func Buffer.contains(b, num) r
  prop C05, C06, C07
  holds b.mu
  requires lst(b)
  ensures absent: !r ==> forall(q, wh(b, q) == 1 ==> qs(b, q) != num)
  ensures present: r ==> exists(q, wh(b, q) == 1 && qs(b, q) == num)
  loop later: forallt(q, ix(b, q), wh(b, q), wh(b, q) == 1 && ($p == nil || ix(b, q) > ix(b, ref($p))) ==> qs(b, q) != num)
  loop here: $p != nil ==> wh(b, ref($p)) == 1

// a frame: the positions f to e carry consecutive sequence numbers and only the last packet ends one
def run(b, f, e) = forallt(k, nd(b, k), f < k && k <= e ==> qs(b, nd(b, k)) == u16(qs(b, nd(b, k - 1)) + 1)) && forallt(k, nd(b, k), f <= k && k < e ==> !as(nd(b, k), *packet).end)
def frame(b, f, e) = as(nd(b, f), *packet).start && f <= e && e < hi(b) && as(nd(b, e), *packet).end && run(b, f, e)

def severed(b, f) = exists(e, f <= e && e < hi(b) && run(b, f, e) && !as(nd(b, e), *packet).end && (nx(nd(b, e)) == 0 || qs(b, nx(nd(b, e))) != u16(qs(b, nd(b, e)) + 1)))

func packet.isComplete(p) r
  prop C05, C06, C07
  requires listed: wh(as(ob(p), *Buffer), ref(p)) == 1 && lst(as(ob(p), *Buffer))
  ensures yes: r ==> exists(e, frame(as(ob(p), *Buffer), ix(as(ob(p), *Buffer), ref(p)), e))
  ensures no: !r ==> !p.start || severed(as(ob(p), *Buffer), ix(as(ob(p), *Buffer), ref(p)))
  loop here: wh(as(ob(p), *Buffer), ref($p)) == 1 && ix(as(ob(p), *Buffer), ref($p)) >= ix(as(ob(p), *Buffer), ref(p))
  loop run: p.start && run(as(ob(p), *Buffer), ix(as(ob(p), *Buffer), ref(p)), ix(as(ob(p), *Buffer), ref($p))) && !$p.end

ghost lsn 1 // calls of a loss callback, and the totals of the last one
ghost lsl 1
ghost lsd 1
functype PacketLossFunc(f, lost, dropped)
  set lsn(f) := old(lsn(f)) + 1
  set lsl(f) := lost
  set lsd(f) := dropped

def pos(b) = ite(pv(nw(b)) == 0, lo(b), ix(b, pv(nw(b))) + 1)
def stale(b, pkt) = b.initialized && bef(pkt.SequenceNumber, b.prevSN)
def dup(b, pkt) = exists(q, wh(b, q) == 1 && qs(b, q) == pkt.SequenceNumber)
def late(b, pkt) = stale(b, pkt) || dup(b, pkt)
def early(b, pkt) = pkt.Padding && !b.initialized
def same(b) = b.size == old(b.size) && ref(b.head) == old(ref(b.head)) && ref(b.tail) == old(ref(b.tail))
def sames(b) = b.stats.PacketsLost == old(b.stats.PacketsLost) && b.stats.PacketsDropped == old(b.stats.PacketsDropped)
def quiet(b) = lsn(b.onPacketLoss) == old(lsn(b.onPacketLoss)) && lsl(b.onPacketLoss) == old(lsl(b.onPacketLoss)) && lsd(b.onPacketLoss) == old(lsd(b.onPacketLoss))
def told(b) = b.onPacketLoss != nil ==> (quiet(b) && sames(b)) || (lsn(b.onPacketLoss) > old(lsn(b.onPacketLoss)) && lsl(b.onPacketLoss) == b.stats.PacketsLost && lsd(b.onPacketLoss) == b.stats.PacketsDropped)
def stats0(b) = b.stats.PacketsLost == old(b.stats.PacketsLost) && b.stats.PacketsPopped == old(b.stats.PacketsPopped) && b.stats.SamplesPopped == old(b.stats.SamplesPopped)

func Buffer.push(b, pkt, receivedAt)
  prop C05
  holds b.mu
  uses winSym, befAnti, between
  named packet, ExtPacket
  requires J(b) && b.size < 1099511627776
  modifies b.size, b.pool, b.pool.*, b.head, b.tail, wh(b), ix(b), nd(b), bysn(b), qs(b), hi(b), pn(b), nw(b), ob(), every(jitter.packet, next), every(jitter.packet, prev), every(jitter.packet, discont), b.stats.PacketsPushed, b.stats.PaddingPushed, b.stats.PacketsDropped, lsn(b.onPacketLoss), lsl(b.onPacketLoss), lsd(b.onPacketLoss)
  set wh(b)[q] := ite(b.size == old(b.size), wh(b, q), ite(q == nw(b), 1, wh(b, q)))
  set ix(b)[q] := ite(b.size == old(b.size), ix(b, q), ite(q == nw(b), pos(b), ite(ix(b, q) >= pos(b), ix(b, q) + 1, ix(b, q))))
  set nd(b)[k] := ite(b.size == old(b.size) || k < pos(b), nd(b, k), ite(k == pos(b), nw(b), nd(b, k - 1)))
  set bysn(b)[s] := ite(b.size != old(b.size) && s == pkt.SequenceNumber, nw(b), bysn(b, s))
  set hi(b) := ite(b.size == old(b.size), hi(b), hi(b) + 1)
  ensures ends: ends(b)
  ensures inlist: inlist(b)
  ensures nexts: nexts(b)
  ensures order: ords(b)
  ensures discont: discs(b)
  ensures prevs: prevs(b)
  ensures nodes: nodes(b)
  ensures pool: pool(b)
  ensures linked: inits(b)
  ensures size: b.size == hi(b) - lo(b)
  ensures late: old(early(b, pkt) || late(b, pkt)) ==> b.size == old(b.size)
  ensures kept: old(!early(b, pkt) && !late(b, pkt)) ==> b.size == old(b.size) + 1 && wh(b, nw(b)) == 1 && as(nw(b), *packet).extPacket.Packet == pkt && as(nw(b), *packet).extPacket.ReceivedAt == receivedAt
  ensures stay: forall(q, wh(b, q) == 1 && (b.size == old(b.size) || q != nw(b)) ==> old(wh(b, q)) == 1) && forall(q, old(wh(b, q)) == 1 ==> wh(b, q) == 1)
  ensures counts: b.stats.PacketsPushed == u64(old(b.stats.PacketsPushed) + 1) && b.stats.PaddingPushed == u64(old(b.stats.PaddingPushed) + ite(pkt.Padding, 1, 0)) && b.stats.PacketsDropped == u64(old(b.stats.PacketsDropped) + ite(old(!pkt.Padding && late(b, pkt)), 1, 0))
  ensures told: told(b)
  loop listed: $p != nil ==> wh(b, ref($p)) == 1
  loop back: ite($p == nil, bef(pkt.SequenceNumber, qs(b, ref(b.head))) && win(pkt.SequenceNumber, qs(b, ref(b.head))), nx(ref($p)) != 0 && bef(pkt.SequenceNumber, qs(b, nx(ref($p)))) && win(pkt.SequenceNumber, qs(b, nx(ref($p)))))
  loop forth: ite($p == nil, !bef(pkt.SequenceNumber, qs(b, ref(b.tail))) && win(pkt.SequenceNumber, qs(b, ref(b.tail))), pv(ref($p)) != 0 && !bef(pkt.SequenceNumber, qs(b, pv(ref($p)))) && win(pkt.SequenceNumber, qs(b, pv(ref($p)))))

// what is known of the packets removed before does not change
def same_hv(b) = forallt(k, hv(b, k), k < old(lo(b)) ==> hv(b, k) == old(hv(b, k)))
def same_hs(b) = forallt(k, hs(b, k), k < old(lo(b)) ==> hs(b, k) == old(hs(b, k)))
def same_hn(b) = forallt(k, hn(b, k), k < old(lo(b)) ==> hn(b, k) == old(hn(b, k)))
def same_hd(b) = forallt(k, hd(b, k), k < old(lo(b)) ==> hd(b, k) == old(hd(b, k)))
def same_hr(b) = forallt(k, hr(b, k), k < old(lo(b)) ==> hr(b, k) == old(hr(b, k)))
def same_hk(b) = forallt(k, hk(b, k), k < old(lo(b)) ==> hk(b, k) == old(hk(b, k)))
def same_hem(b) = forallt(k, hem(b, k), k < old(lo(b)) ==> hem(b, k) == old(hem(b, k)))
def same_hpad(b) = forallt(k, hpad(b, k), k < old(lo(b)) ==> hpad(b, k) == old(hpad(b, k)))
def same_hx(b) = forallt(k, hx(b, k), k < old(lo(b)) ==> hx(b, k) == old(hx(b, k)))
def same_hc(b) = forallt(k, hc(b, k), k < old(lo(b)) ==> hc(b, k) == old(hc(b, k)))
def same_npx(b) = forallt(j, npx(b, j), j < old(npn(b)) ==> npx(b, j) == old(npx(b, j)))
def past(b) = same_hv(b) && same_hs(b) && same_hn(b) && same_hd(b) && same_hr(b) && same_hk(b) && same_hem(b) && same_hpad(b) && same_hx(b) && same_hc(b) && same_npx(b)

// the frame at the head is complete, or it is not
def whole(b) = exists(e, frame(b, lo(b), e))
def partial(b) = !b.head.start || severed(b, lo(b))
modset jlist(b) = b.prevSN, b.head, b.tail, b.size, b.pool, wh(b), lo(b), px(b), pnd(b), pn(b), every(jitter.packet, next), every(jitter.packet, prev), every(jitter.ExtPacket, Packet), every(jitter.ExtPacket, ReceivedAt), jhist(b)

ghost smp 1 // one more than the length of a slice that holds exactly one complete frame
func Buffer.popSample(b) sample
  prop C05, C06, C07
  holds b.mu
  uses nextIn
  named packet, ExtPacket
  requires J(b) && b.head != nil && b.size < 1099511627776
  requires whole: whole(b)
  modifies jlist(b), b.initialized, b.stats.PacketsPopped, b.stats.SamplesPopped, smp()
  set smp(sample) := len(sample) + 1
  ensures inv: J(b) && b.initialized
  ensures some: lo(b) > old(lo(b)) && hb(b, old(lo(b))) == 1 && he(b, lo(b) - 1) == 1
  ensures frame: forallt(k, hv(b, k), old(lo(b)) < k && k < lo(b) ==> hs(b, k) == u16(hv(b, k) + 1)) && forallt(k, he(b, k), old(lo(b)) <= k && k < lo(b) - 1 ==> he(b, k) == 0)
  ensures first: hv(b, old(lo(b))) == old(b.prevSN) && hs(b, old(lo(b))) == old(qs(b, ref(b.head))) && hr(b, old(lo(b))) == old(b.head.extPacket.ReceivedAt) && hd(b, old(lo(b))) == ite(old(b.head.discont), 1, 0) && hn(b, old(lo(b))) == ite(old(b.initialized), 1, 0)
  ensures past: past(b)
  ensures sample: len(sample) == npn(b) - old(npn(b)) && forall(i, 0, len(sample), ref(sample[i].Packet) == hk(b, npx(b, old(npn(b)) + i)) && sample[i].ReceivedAt == hr(b, npx(b, old(npn(b)) + i)))
  ensures all: forallt(k, hem(b, k), old(lo(b)) <= k && k < lo(b) ==> hem(b, k) == 1 - hpad(b, k) && 0 <= hpad(b, k) && hpad(b, k) <= 1) && forallt(k, hx(b, k), old(lo(b)) <= k && k < lo(b) ==> hx(b, k) == 0)
  ensures loss: la(b) == old(la(b)) + ite(old(b.initialized && !b.head.discont), u16(old(qs(b, ref(b.head))) - old(b.prevSN) - 1), 0)
  ensures counts: b.stats.PacketsPopped == u64(old(b.stats.PacketsPopped) + lo(b) - old(lo(b))) && b.stats.SamplesPopped == u64(old(b.stats.SamplesPopped) + 1)
  loop lst: lst(b)
  loop pool: pool(b)
  loop inits: inits(b)
  loop hist: hist(b)
  loop size: b.size == hi(b) - lo(b) && lo(b) >= old(lo(b)) && (lo(b) == old(lo(b)) ==> !$b)
  loop more: !$b ==> b.head != nil && exists(e, lo(b) <= e && e < hi(b) && as(nd(b, e), *packet).end && run(b, lo(b), e))
  loop next: !$b && lo(b) > old(lo(b)) ==> qs(b, nd(b, lo(b))) == u16(b.prevSN + 1)
  loop begin: lo(b) == old(lo(b)) ==> b.prevSN == old(b.prevSN) && ref(b.head) == old(ref(b.head)) && b.head.start == old(b.head.start) && ref(b.head.extPacket.Packet) == old(ref(b.head.extPacket.Packet)) && b.head.extPacket.ReceivedAt == old(b.head.extPacket.ReceivedAt) && b.head.discont == old(b.head.discont) && nd(b, lo(b)) == old(nd(b, lo(b))) && la(b) == old(la(b)) && npn(b) == old(npn(b))
  loop linked: lo(b) > old(lo(b)) && b.head != nil ==> flw(b.prevSN, qs(b, ref(b.head))) && (b.head.discont == (b.head.start && !win(b.prevSN, qs(b, ref(b.head)))))
  loop some: lo(b) > old(lo(b)) ==> hb(b, old(lo(b))) == 1 && he(b, lo(b) - 1) == ite($b, 1, 0)
  loop steps: forallt(k, hv(b, k), old(lo(b)) < k && k < lo(b) ==> hs(b, k) == u16(hv(b, k) + 1))
  loop inner: forallt(k, he(b, k), old(lo(b)) <= k && k < lo(b) - 1 ==> he(b, k) == 0)
  loop first: lo(b) > old(lo(b)) ==> hv(b, old(lo(b))) == old(b.prevSN) && hs(b, old(lo(b))) == old(qs(b, ref(b.head))) && hr(b, old(lo(b))) == old(b.head.extPacket.ReceivedAt) && hd(b, old(lo(b))) == ite(old(b.head.discont), 1, 0) && hn(b, old(lo(b))) == ite(old(b.initialized), 1, 0)
  loop past_hv: same_hv(b)
  loop past_hs: same_hs(b)
  loop past_hn: same_hn(b)
  loop past_hd: same_hd(b)
  loop past_hr: same_hr(b)
  loop past_hk: same_hk(b)
  loop past_hem: same_hem(b)
  loop past_hpad: same_hpad(b)
  loop past_hx: same_hx(b)
  loop past_hc: same_hc(b)
  loop past_npx: same_npx(b)
  loop own: ref($s) > old(top)
  loop len: len($s) == npn(b) - old(npn(b))
  loop sample: forall(i, 0, len($s), ref($s[i].Packet) == hk(b, npx(b, old(npn(b)) + i)) && $s[i].ReceivedAt == hr(b, npx(b, old(npn(b)) + i)))
  loop all: forallt(k, hem(b, k), old(lo(b)) <= k && k < lo(b) ==> hem(b, k) == 1 - hpad(b, k) && 0 <= hpad(b, k) && hpad(b, k) <= 1) && forallt(k, hx(b, k), old(lo(b)) <= k && k < lo(b) ==> hx(b, k) == 0)
  loop loss: la(b) == old(la(b)) + ite(lo(b) > old(lo(b)) && old(b.initialized && !b.head.discont), u16(old(qs(b, ref(b.head))) - old(b.prevSN) - 1), 0)
  loop counts: b.stats.PacketsPopped == u64(old(b.stats.PacketsPopped) + lo(b) - old(lo(b)))

// dropping what cannot be completed
func Buffer.dropIncomplete(b, expiry, force) r
  prop C05, C06, C07
  holds b.mu
  named packet, ExtPacket
  requires J(b) && b.size < 1099511627776
  modifies jlist(b), ndr(b), b.stats.PacketsLost, b.stats.PacketsDropped
  set hem(b)[k] := ite(old(lo(b)) <= k && k < lo(b), 0, hem(b, k))
  set hx(b)[k] := ite(old(lo(b)) <= k && k < lo(b), 1, hx(b, k))
  set npn(b) := old(npn(b))
  set ndr(b) := old(ndr(b)) + lo(b) - old(lo(b))
  ensures inv: J(b)
  ensures did: lo(b) >= old(lo(b)) && (r <==> lo(b) > old(lo(b))) && (!r ==> la(b) == old(la(b)) && b.stats.PacketsLost == old(b.stats.PacketsLost) && b.stats.PacketsDropped == old(b.stats.PacketsDropped))
  ensures only: forallt(k, hx(b, k), old(lo(b)) <= k && k < lo(b) ==> hx(b, k) == 1 && hc(b, k) == 0 && (force || hr(b, k) < expiry))
  ensures none: forallt(k, hem(b, k), old(lo(b)) <= k && k < lo(b) ==> hem(b, k) == 0)
  ensures past: past(b)
  ensures left: b.head != nil ==> whole(b) || (!force && b.head.extPacket.ReceivedAt >= expiry)
  ensures counts: b.stats.PacketsDropped == u64(old(b.stats.PacketsDropped) + lo(b) - old(lo(b))) && b.stats.PacketsLost == u64(old(b.stats.PacketsLost) + la(b) - old(la(b))) && la(b) >= old(la(b))
  loop lst: lst(b)
  loop pool: pool(b)
  loop inits: inits(b)
  loop hist: hist(b)
  loop size: b.size == hi(b) - lo(b) && lo(b) >= old(lo(b))
  loop did: ($b <==> lo(b) > old(lo(b))) && (!$b ==> la(b) == old(la(b)) && b.stats.PacketsLost == old(b.stats.PacketsLost) && b.stats.PacketsDropped == old(b.stats.PacketsDropped))
  loop npn: npn(b) >= old(npn(b)) && forallt(k, nj(b, k), k < old(lo(b)) ==> nj(b, k) == old(nj(b, k))) && forallt(j, npx(b, j), old(npn(b)) <= j && j < npn(b) ==> npx(b, j) >= old(lo(b)))
  loop only: forallt(k, hc(b, k), old(lo(b)) <= k && k < lo(b) ==> hc(b, k) == 0 && (force || hr(b, k) < expiry))
  loop past_hv: same_hv(b)
  loop past_hs: same_hs(b)
  loop past_hn: same_hn(b)
  loop past_hd: same_hd(b)
  loop past_hr: same_hr(b)
  loop past_hk: same_hk(b)
  loop past_hem: same_hem(b)
  loop past_hpad: same_hpad(b)
  loop past_hx: same_hx(b)
  loop past_hc: same_hc(b)
  loop past_npx: same_npx(b)
  loop counts: b.stats.PacketsDropped == u64(old(b.stats.PacketsDropped) + lo(b) - old(lo(b)))
  loop lost: b.stats.PacketsLost == u64(old(b.stats.PacketsLost) + la(b) - old(la(b))) && la(b) >= old(la(b))

func Buffer.dropIncompleteExpired(b, expiry)
  prop C05, C06, C07
  holds b.mu
  named packet, ExtPacket
  requires J(b) && b.size < 1099511627776
  modifies jlist(b), ndr(b), b.stats.PacketsLost, b.stats.PacketsDropped, lsn(b.onPacketLoss), lsl(b.onPacketLoss), lsd(b.onPacketLoss)
  ensures inv: J(b)
  ensures did: lo(b) >= old(lo(b)) && npn(b) == old(npn(b))
  ensures only: forallt(k, hx(b, k), old(lo(b)) <= k && k < lo(b) ==> hx(b, k) == 1 && hc(b, k) == 0 && hr(b, k) < expiry)
  ensures none: forallt(k, hem(b, k), old(lo(b)) <= k && k < lo(b) ==> hem(b, k) == 0)
  ensures past: past(b)
  ensures left: b.head != nil ==> whole(b) || b.head.extPacket.ReceivedAt >= expiry
  ensures counts: b.stats.PacketsDropped == u64(old(b.stats.PacketsDropped) + lo(b) - old(lo(b))) && b.stats.PacketsLost == u64(old(b.stats.PacketsLost) + la(b) - old(la(b))) && la(b) >= old(la(b)) && ndr(b) == old(ndr(b)) + lo(b) - old(lo(b))
  ensures told: told(b)

ghost emn 1 // packets handed to a callback, in order, and the times they arrived
ghost em 2
ghost emt 2
functype PacketFunc(f, packets)
  requires frame: len(packets) > 0 && smp(packets) == len(packets) + 1
  set em(f)[i] := ite(i >= old(emn(f)) && i < old(emn(f)) + len(packets), ref(packets[i - old(emn(f))].Packet), old(em(f, i)))
  set emt(f)[i] := ite(i >= old(emn(f)) && i < old(emn(f)) + len(packets), packets[i - old(emn(f))].ReceivedAt, old(emt(f, i)))
  set emn(f) := old(emn(f)) + len(packets)

ghost tmn 1 // how often a timer was set, and its last duration
ghost tmd 1
extern time.Timer.Reset(t, d) r
  set tmn(t) := old(tmn(t)) + 1
  set tmd(t) := d

// the packets handed on are the ones taken out of the buffer as frames, in order
def given(b) = emn(b.onPacket) - old(emn(b.onPacket)) == npn(b) - old(npn(b)) && npn(b) >= old(npn(b)) && forallt(i, em(b.onPacket, i), old(emn(b.onPacket)) <= i && i < emn(b.onPacket) ==> em(b.onPacket, i) == hk(b, npx(b, i - old(emn(b.onPacket)) + old(npn(b)))) && emt(b.onPacket, i) == hr(b, npx(b, i - old(emn(b.onPacket)) + old(npn(b)))))
def fates(b) = lo(b) >= old(lo(b)) && forallt(k, hem(b, k), old(lo(b)) <= k && k < lo(b) ==> hem(b, k) == ite(hx(b, k) == 0 && hpad(b, k) == 0, 1, 0)) 
def drops(b, t) = forallt(k, hx(b, k), old(lo(b)) <= k && k < lo(b) && hx(b, k) != 0 ==> hc(b, k) == 0 && hr(b, k) < t)
def waited(b, t) = forallt(k, hx(b, k), old(lo(b)) <= k && k < lo(b) && hx(b, k) == 0 ==> hn(b, k) == 0 || hd(b, k) == 1 || hs(b, k) == u16(hv(b, k) + 1) || hr(b, k) <= t)
def counts(b) = ndr(b) >= old(ndr(b)) && b.stats.PacketsDropped == u64(old(b.stats.PacketsDropped) + ndr(b) - old(ndr(b))) && b.stats.PacketsLost == u64(old(b.stats.PacketsLost) + la(b) - old(la(b))) && la(b) >= old(la(b)) && b.stats.PacketsPopped == u64(old(b.stats.PacketsPopped) + lo(b) - old(lo(b)) - ndr(b) + old(ndr(b)))
modset jready(b) = jlist(b), ndr(b), b.initialized, b.stats.PacketsLost, b.stats.PacketsDropped, b.stats.PacketsPopped, b.stats.SamplesPopped, lsn(b.onPacketLoss), lsl(b.onPacketLoss), lsd(b.onPacketLoss), em(b.onPacket), emt(b.onPacket), emn(b.onPacket), smp()

func Buffer.popReady(b)
  prop C05, C06, C07
  holds b.mu
  named packet, ExtPacket
  requires J(b) && b.size < 1099511627776
  modifies jready(b), tmn(b.timer), tmd(b.timer)
  ensures inv: J(b)
  ensures past: past(b)
  ensures fates: fates(b)
  ensures dropped: drops(b, now - b.latency)
  ensures waited: waited(b, now - b.latency)
  ensures handed: given(b)
  ensures left: b.head != nil && b.latency >= 0 ==> partial(b) || (b.initialized && !b.head.discont && b.head.extPacket.Packet.SequenceNumber != u16(b.prevSN + 1) && b.head.extPacket.ReceivedAt > old(now) - b.latency)
  ensures counts: counts(b)
  ensures told: told(b)
  ensures timer: b.head != nil ==> tmn(b.timer) > old(tmn(b.timer)) && tmd(b.timer) <= max(b.head.extPacket.ReceivedAt + b.latency - old(now), 0)
  loop lst: lst(b)
  loop pool: pool(b)
  loop inits: inits(b)
  loop hist1: hist1(b)
  loop hist2: hist2(b)
  loop hist3a: npn(b) >= 0 && forallt(k, hem(b, k), nj(b, k), 0 <= k && k < lo(b) && hem(b, k) == 1 ==> hpad(b, k) == 0 && 0 <= nj(b, k) && nj(b, k) < npn(b) && npx(b, nj(b, k)) == k)
  loop hist3b: forallt(j, npx(b, j), 0 <= j && j < npn(b) ==> 0 <= npx(b, j) && npx(b, j) < lo(b) && nj(b, npx(b, j)) == j && hem(b, npx(b, j)) == 1)
  loop hist3c: forall(i j, 0 <= i && i < j && j < npn(b) ==> npx(b, i) < npx(b, j))
  loop size: b.size == hi(b) - lo(b) && lo(b) >= old(lo(b))
  loop past_hv: same_hv(b)
  loop past_hs: same_hs(b)
  loop past_hn: same_hn(b)
  loop past_hd: same_hd(b)
  loop past_hr: same_hr(b)
  loop past_hk: same_hk(b)
  loop past_hem: same_hem(b)
  loop past_hpad: same_hpad(b)
  loop past_hx: same_hx(b)
  loop past_hc: same_hc(b)
  loop past_npx: same_npx(b)
  loop fates: fates(b)
  loop time: now >= clock && clock >= old(now)
  loop dropped: drops(b, now - b.latency)
  loop waited: waited(b, now - b.latency)
  loop handed: given(b)
  loop counts: counts(b)
  loop told: $b || told(b)
  loop calls: b.onPacketLoss != nil ==> lsn(b.onPacketLoss) >= old(lsn(b.onPacketLoss))

func Buffer.Flush(b)
  prop C05, C06, C07
  named packet, ExtPacket
  requires J(b) && b.size < 1099511627776
  modifies jready(b)
  ensures inv: J(b)
  ensures past: past(b)
  ensures fates: fates(b)
  ensures dropped: forallt(k, hx(b, k), old(lo(b)) <= k && k < lo(b) && hx(b, k) != 0 ==> hc(b, k) == 0)
  ensures given: given(b)
  ensures empty: b.head == nil
  ensures counts: counts(b)
  ensures told: told(b)
  loop lst: lst(b)
  loop pool: pool(b)
  loop inits: inits(b)
  loop hist: hist(b)
  loop size: b.size == hi(b) - lo(b) && lo(b) >= old(lo(b))
  loop empty: b.head == nil || whole(b)
  loop past_hv: same_hv(b)
  loop past_hs: same_hs(b)
  loop past_hn: same_hn(b)
  loop past_hd: same_hd(b)
  loop past_hr: same_hr(b)
  loop past_hk: same_hk(b)
  loop past_hem: same_hem(b)
  loop past_hpad: same_hpad(b)
  loop past_hx: same_hx(b)
  loop past_hc: same_hc(b)
  loop past_npx: same_npx(b)
  loop fates: fates(b)
  loop dropped: forallt(k, hx(b, k), old(lo(b)) <= k && k < lo(b) && hx(b, k) != 0 ==> hc(b, k) == 0)
  loop given: given(b)
  loop counts: counts(b)
  loop calls: quiet(b)
  loop either: $b || $b2 || sames(b)

func Buffer.PushAt(b, pkt, receivedAt)
  prop C05, C06, C07
  named packet, ExtPacket
  requires J(b) && b.size < 1099511627775
  modifies jready(b), tmn(b.timer), tmd(b.timer), b.pool.*, ix(b), nd(b), bysn(b), qs(b), hi(b), nw(b), ob(), every(jitter.packet, discont), b.stats.PacketsPushed, b.stats.PaddingPushed
  ensures inv: J(b)
  ensures past: past(b)
  ensures fates: fates(b)
  ensures dropped: drops(b, now - b.latency)
  ensures waited: waited(b, now - b.latency)
  ensures given: given(b)
  ensures late: old(early(b, pkt) || late(b, pkt)) ==> hi(b) == old(hi(b))
  ensures kept: old(!early(b, pkt) && !late(b, pkt)) ==> hi(b) == old(hi(b)) + 1
  ensures left: b.head != nil && b.latency >= 0 ==> partial(b) || (b.initialized && !b.head.discont && b.head.extPacket.Packet.SequenceNumber != u16(b.prevSN + 1) && b.head.extPacket.ReceivedAt > old(now) - b.latency)
  ensures pushed: b.stats.PacketsPushed == u64(old(b.stats.PacketsPushed) + 1)
  ensures dropcount: b.stats.PacketsDropped == u64(old(b.stats.PacketsDropped) + ndr(b) - old(ndr(b)) + ite(old(!pkt.Padding && late(b, pkt)), 1, 0))
  ensures losscount: b.stats.PacketsLost == u64(old(b.stats.PacketsLost) + la(b) - old(la(b)))
  ensures told: told(b)

func Buffer.PushExtPacket(b, extPkt)
  prop C05, C06, C07
  named packet, ExtPacket
  requires J(b) && b.size < 1099511627775 && extPkt.Packet != nil
  modifies jready(b), tmn(b.timer), tmd(b.timer), b.pool.*, ix(b), nd(b), bysn(b), qs(b), hi(b), nw(b), ob(), every(jitter.packet, discont), b.stats.PacketsPushed, b.stats.PaddingPushed
  ensures inv: J(b)
  ensures past: past(b)
  ensures late: old(early(b, extPkt.Packet) || late(b, extPkt.Packet)) ==> hi(b) == old(hi(b))
  ensures kept: old(!early(b, extPkt.Packet) && !late(b, extPkt.Packet)) ==> hi(b) == old(hi(b)) + 1

func Buffer.UpdateLatency(b, latency)
  prop C07
  requires b.head != nil ==> lst(b)
  modifies b.latency, tmn(b.timer), tmd(b.timer)
  ensures set: b.latency == latency
  ensures timer: b.head != nil ==> tmn(b.timer) > old(tmn(b.timer)) && tmd(b.timer) <= max(b.head.extPacket.ReceivedAt + latency - old(now), 0)

func Buffer.Size(b) n
  prop C06
  requires J(b)
  ensures n == hi(b) - lo(b)

func Buffer.Stats(b) s
  prop C07
  ensures s.PacketsPushed == b.stats.PacketsPushed && s.PaddingPushed == b.stats.PaddingPushed && s.PacketsLost == b.stats.PacketsLost && s.PacketsDropped == b.stats.PacketsDropped && s.PacketsPopped == b.stats.PacketsPopped && s.SamplesPopped == b.stats.SamplesPopped
