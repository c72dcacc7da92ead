package ring
// C01: the ring buffer is a FIFO of at most size elements that overwrites the oldest ones.

def rb(b) = len(b.buf) > 0 && 0 <= b.read && b.read < len(b.buf) && 0 <= b.write && b.write < len(b.buf) && (b.full ==> b.read == b.write)
def blen(b) = ite(b.read == b.write, ite(b.full, len(b.buf), 0), ite(b.read < b.write, b.write - b.read, b.write - b.read + len(b.buf)))
def bat(b, k) = b.buf[ite(b.read + k < len(b.buf), b.read + k, b.read + k - len(b.buf))]
def wdrop(b, p) = max(0, blen(b) + len(p) - len(b.buf))

func NewBuffer(sz) r
  prop C01
  requires sz > 0
  ensures fresh(r)
  ensures inv: rb(r)
  ensures empty: blen(r) == 0 && len(r.buf) == sz
  ensures own: fresh(r.buf)

func Buffer.Size(b) n
  prop C01
  requires rb(b)
  ensures size: n == len(b.buf)

func Buffer.Len(b) n
  prop C01
  requires rb(b)
  ensures len: n == blen(b)

func Buffer.TryPeek(b) v, ok
  prop C01
  requires rb(b)
  ensures ok == (blen(b) > 0)
  ensures first: ok ==> v == bat(b, 0)

func Buffer.Peek(b) v
  prop C01
  requires rb(b)
  ensures first: blen(b) > 0 ==> v == bat(b, 0)

func Buffer.TryPop(b) v, ok
  prop C01
  requires rb(b)
  modifies b.read, b.full
  ensures inv: rb(b)
  ensures ok == (old(blen(b)) > 0)
  ensures first: ok ==> v == old(bat(b, 0))
  ensures len: blen(b) == old(blen(b)) - ite(ok, 1, 0)
  ensures rest: ok ==> forall(k, 0, blen(b), bat(b, k) == old(bat(b, k + 1)))

func Buffer.Pop(b) v
  prop C01
  requires rb(b)
  modifies b.read, b.full
  ensures inv: rb(b)
  ensures first: old(blen(b)) > 0 ==> v == old(bat(b, 0))
  ensures len: blen(b) == old(blen(b)) - ite(old(blen(b)) > 0, 1, 0)
  ensures rest: old(blen(b)) > 0 ==> forall(k, 0, blen(b), bat(b, k) == old(bat(b, k + 1)))

func Buffer.TryPush(b, v) ok
  prop C01
  requires rb(b)
  modifies b.write, b.full, elems(b.buf)
  ensures inv: rb(b)
  ensures ok: ok == (old(blen(b)) < len(b.buf))
  ensures len: blen(b) == old(blen(b)) + ite(ok, 1, 0)
  ensures last: ok ==> bat(b, old(blen(b))) == v
  ensures rest: forall(k, 0, old(blen(b)), bat(b, k) == old(bat(b, k)))

func Buffer.Push(b, v)
  prop C01
  requires rb(b)
  modifies b.read, b.write, b.full, elems(b.buf)
  ensures inv: rb(b)
  ensures len: blen(b) == min(old(blen(b)) + 1, len(b.buf))
  ensures last: bat(b, blen(b) - 1) == v
  ensures rest: forall(k, 0, blen(b) - 1, bat(b, k) == old(bat(b, k + ite(blen(b) == len(b.buf), 1, 0))))

func Buffer.Read(b, p) n, err
  prop C01
  requires rb(b)
  requires sep: len(p) > 0 ==> ref(p) != ref(b.buf)
  modifies b.read, b.full, elems(p)
  ensures inv: rb(b)
  ensures n: n == min(len(p), old(blen(b)))
  ensures err: (err == io.EOF) == (len(p) > 0 && old(blen(b)) == 0) && (err != nil ==> err == io.EOF)
  ensures data: forall(k, 0, n, p[k] == old(bat(b, k)))
  ensures keep: forall(k, n, len(p), p[k] == old(p[k]))
  ensures len: blen(b) == old(blen(b)) - n
  ensures rest: forall(k, 0, blen(b), bat(b, k) == old(bat(b, k + n)))

func Buffer.Write(b, p) n, err
  prop C01
  requires rb(b)
  requires sep: len(p) > 0 ==> ref(p) != ref(b.buf)
  modifies b.read, b.write, b.full, elems(b.buf)
  ensures inv: rb(b)
  ensures n: n == len(p) && err == nil
  ensures len: blen(b) == min(old(blen(b)) + len(p), len(b.buf))
  ensures old: forall(k, 0, old(blen(b) - wdrop(b, p)), bat(b, k) == old(bat(b, k + wdrop(b, p))))
  ensures new: forall(k, max(0, old(blen(b) - wdrop(b, p))), blen(b), bat(b, k) == p[k - old(blen(b) - wdrop(b, p))])
