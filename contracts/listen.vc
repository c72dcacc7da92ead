package rtp
// C11: binding a UDP port from a range

ghost bnn 1    // bind attempts made with a bind function
ghost bnPort 2 // port of the i-th attempt
ghost bnConn 2 // its result
ghost bnErr 2
functype rtp.bindFunc(f, port, ip) c, err
  set bnPort(f)[k] := ite(k == old(bnn(f)), port, old(bnPort(f, k)))
  set bnConn(f)[k] := ite(k == old(bnn(f)), ref(c), old(bnConn(f, k)))
  set bnErr(f)[k] := ite(k == old(bnn(f)), sid(err), old(bnErr(f, k)))
  set bnn(f) := old(bnn(f)) + 1

// what the last bindRange call was given and returned
ghost brMin 1
ghost brMax 1
ghost brConn 1
ghost brErr 1
// what the last socket was opened with
ghost lnPort 1
ghost lnConn 1
ghost lnErr 1
extern net.ListenUDP(network, laddr) c, err
  set lnPort(0) := laddr.Port
  set lnConn(0) := ref(c)
  set lnErr(0) := sid(err)

def inuse(e) = boolfn("errors.Is", e, box(syscall.EADDRINUSE))
// the normalised range
def pmin(lo) = ite(lo <= 0, 1, lo)
def pmax(hi) = ite(hi <= 0 || hi > 65535, 65535, hi)
def attempts(f) = bnn(f) - old(bnn(f))

func bindRange(portMin, portMax, ip, create) c, err
  prop C11
  requires create != nil
  modifies bnn(create), bnPort(create), bnConn(create), bnErr(create), brMin(0), brMax(0), brConn(0), brErr(0)
  set brMin(0) := portMin
  set brMax(0) := portMax
  set brConn(0) := ref(c)
  set brErr(0) := sid(err)
  ensures any: portMin <= 0 && portMax <= 0 ==> attempts(create) == 1 && bnPort(create, old(bnn(create))) == 0 && ref(c) == bnConn(create, old(bnn(create))) && sid(err) == bnErr(create, old(bnn(create)))
  ensures single: portMin == portMax && portMin > 0 ==> attempts(create) == 1 && bnPort(create, old(bnn(create))) == portMin && ref(c) == bnConn(create, old(bnn(create))) && sid(err) == bnErr(create, old(bnn(create)))
  ensures range: (portMin > 0 || portMax > 0) && portMin != portMax ==> forall(i, old(bnn(create)), bnn(create), pmin(portMin) <= bnPort(create, i) && bnPort(create, i) <= pmax(portMax))
  ensures once: (portMin > 0 || portMax > 0) && portMin != portMax ==> forall(i j, old(bnn(create)), bnn(create), i != j ==> bnPort(create, i) != bnPort(create, j))
  ensures retried: forall(i, old(bnn(create)), bnn(create) - 1, inuse(bnErr(create, i)) && bnErr(create, i) != 0)
  ensures ok: err == nil ==> attempts(create) > 0 && ref(c) == bnConn(create, bnn(create) - 1) && bnErr(create, bnn(create) - 1) == 0
  ensures failed: err != nil ==> attempts(create) > 0 && sid(err) == bnErr(create, bnn(create) - 1) && (!inuse(err) || portMin == portMax || portMin <= 0 && portMax <= 0) || err == ErrListenFailed && attempts(create) == max(0, pmax(portMax) - pmin(portMin) + 1) && forall(i, old(bnn(create)), bnn(create), inuse(bnErr(create, i)))
  ensures hist: forall(i, 0, old(bnn(create)), bnPort(create, i) == old(bnPort(create, i)))
  loop cnt: bnn(create) == atloop(bnn(create)) + $i
  loop ports2: forall(i, atloop(bnn(create)), bnn(create), bnPort(create, i) == ite(atloop($j) + i - atloop(bnn(create)) <= pmax(portMax), atloop($j) + i - atloop(bnn(create)), atloop($j) + i - atloop(bnn(create)) - (pmax(portMax) - pmin(portMin) + 1)))
  loop cur: $j == ite(atloop($j) + $i <= pmax(portMax), atloop($j) + $i, atloop($j) + $i - (pmax(portMax) - pmin(portMin) + 1))
  loop failed: forall(i, atloop(bnn(create)), bnn(create), inuse(bnErr(create, i)) && bnErr(create, i) != 0)
  loop hist: forall(i, 0, atloop(bnn(create)), bnPort(create, i) == atloop(bnPort(create, i)))

func ListenUDPPortRange(portMin, portMax, ip) c, err
  prop C11
  modifies bnn(), bnPort(), bnConn(), bnErr(), brMin(0), brMax(0), brConn(0), brErr(0)
  ensures range: brMin(0) == portMin && brMax(0) == portMax
  ensures result: ref(c) == brConn(0) && sid(err) == brErr(0)

func ListenUDPPortRange$1(port, ip) c, err
  prop C11
  modifies lnPort(0), lnConn(0), lnErr(0)
  ensures port: lnPort(0) == port
  ensures result: ref(c) == lnConn(0) && sid(err) == lnErr(0)

func ListenUDPPortRangeWithConfig(portMin, portMax, ip, lc) c, err
  prop C11
  modifies bnn(), bnPort(), bnConn(), bnErr(), brMin(0), brMax(0), brConn(0), brErr(0)
  ensures range: brMin(0) == portMin && brMax(0) == portMax
  ensures result: ref(c) == brConn(0) && sid(err) == brErr(0)
