package media
// C15: PCM helpers

func PCM16Sample.Size(s) r
  prop C15
  ensures r == 2 * len(s)

func PCM16Sample.CopyTo(s, dst) n, err
  prop C15
  modifies elems(dst)
  ensures short: len(dst) < 2 * len(s) ==> n == 0 && err == io.ErrShortBuffer && forall(k, 0, len(dst), dst[k] == old(dst[k]))
  ensures ok: len(dst) >= 2 * len(s) ==> n == 2 * len(s) && err == nil
  ensures data: err == nil ==> forall(k, 0, len(s), dst[2 * k] == rem(u16(s[k]), 256) && dst[2 * k + 1] == quo(u16(s[k]), 256))
  ensures rest: forall(k, n, len(dst), dst[k] == old(dst[k]))
  loop lo: forall(k, 0, $i, dst[2 * k] == rem(u16(s[k]), 256) && dst[2 * k + 1] == quo(u16(s[k]), 256))
  loop hi: forall(k, 2 * $i, len(dst), dst[k] == atloop(dst[k]))

func PCM16Sample.Clear(s)
  prop C15
  modifies elems(s)
  ensures zero: forall(k, 0, len(s), s[k] == 0)
  loop done: forall(k, 0, $i, s[k] == 0)

func PCM16Sample.WriteSample(s, data) err
  prop C15
  modifies *s, elemscap(*s)
  ensures ok: err == nil
  ensures len: len(*s) == old(len(*s)) + len(data)
  ensures old: forall(k, 0, old(len(*s)), (*s)[k] == old((*s)[k]))
  ensures new: forall(k, 0, len(data), (*s)[old(len(*s)) + k] == old(data[k]))

func MonoToStereo(dst, src)
  prop C15
  requires sep: len(src) > 0 && len(dst) > 0 ==> ref(dst) != ref(src)
  panics len(dst) < 2 * len(src)
  modifies elems(dst)
  ensures dup: forall(k, 0, len(src), dst[2 * k] == src[k] && dst[2 * k + 1] == src[k])
  ensures rest: forall(k, 2 * len(src), len(dst), dst[k] == old(dst[k]))
  loop lo: forall(k, 0, $i, dst[2 * k] == src[k] && dst[2 * k + 1] == src[k])
  loop hi: forall(k, 2 * $i, len(dst), dst[k] == atloop(dst[k]))

// dst and src may overlap if dst starts no later than src
func StereoToMono(dst, src)
  prop C15
  requires sep: len(src) > 0 && len(dst) > 0 ==> ref(dst) != ref(src) || off(dst) <= off(src)
  panics len(dst) < quo(len(src), 2)
  modifies elems(dst)
  ensures avg: forall(k, 0, quo(len(src), 2), dst[k] == quo(old(src[2 * k]) + old(src[2 * k + 1]), 2))
  ensures rest: forall(k, quo(len(src), 2), len(dst), dst[k] == old(dst[k]))
  loop done: forall(k, 0, $i, dst[k] == quo(atloop(src[2 * k]) + atloop(src[2 * k + 1]), 2))
  loop todo: forall(k, $i, len(dst), dst[k] == atloop(dst[k]))
  loop src: forall(k, 2 * $i, len(src), src[k] == atloop(src[k]))

func frameWriterPCM16.WriteSample(b, data) err
  prop C15
  requires b.buf != nil
  modifies *b.buf, elemscap(*b.buf)
  ensures ok: err == nil
  ensures len: len(*b.buf) == old(len(*b.buf)) + 1
  ensures old: forall(k, 0, old(len(*b.buf)), ref((*b.buf)[k]) == old(ref((*b.buf)[k])) && len((*b.buf)[k]) == old(len((*b.buf)[k])) && off((*b.buf)[k]) == old(off((*b.buf)[k])))
  ensures new: len((*b.buf)[old(len(*b.buf))]) == len(data) && forall(k, 0, len(data), (*b.buf)[old(len(*b.buf))][k] == data[k])
  ensures copy: len(data) > 0 ==> fresh(ref((*b.buf)[old(len(*b.buf))]))

func bufferWriterPCM16.WriteSample(b, data) err
  prop C15
  modifies *b.buf, elemscap(*b.buf)
  ensures ok: err == nil && b.buf == old(b.buf)
  ensures len: b.buf != nil ==> len(*b.buf) == old(len(*b.buf)) + len(data)
  ensures old: b.buf != nil ==> forall(k, 0, old(len(*b.buf)), (*b.buf)[k] == old((*b.buf)[k]))
  ensures new: b.buf != nil ==> forall(k, 0, len(data), (*b.buf)[old(len(*b.buf)) + k] == old(data[k]))

func bufferWriterPCM16.Close(b) err
  prop C15
  modifies b.buf
  ensures b.buf == nil && err == nil

func bufferReaderPCM16.ReadSample(b, data) n, err
  prop C15
  modifies b.buf, elems(data)
  ensures n: n == min(len(data), old(len(b.buf))) && err == nil
  ensures data: forall(k, 0, n, data[k] == old(b.buf[k]))
  ensures keep: forall(k, n, len(data), data[k] == old(data[k]))
  ensures rest: len(b.buf) == old(len(b.buf)) - n && ref(b.buf) == old(ref(b.buf)) && off(b.buf) == old(off(b.buf)) + n

func NewPCM16BufferReader(buf) r
  prop C15
  ensures typeis(r, *bufferReaderPCM16) && ref(unbox(r).buf) == ref(buf) && off(unbox(r).buf) == off(buf) && len(unbox(r).buf) == len(buf)

func NewPCM16BufferWriter(buf, sampleRate) r
  prop C15
  nilable buf
  panics buf == nil
  ensures typeis(r, *bufferWriterPCM16) && unbox(r).buf == buf && unbox(r).sampleRate == sampleRate

func NewPCM16FrameWriter(buf, sampleRate) r
  prop C15
  ensures typeis(r, *frameWriterPCM16) && unbox(r).buf == buf && unbox(r).sampleRate == sampleRate

guard bufferWriterPCM16.mu: buf
