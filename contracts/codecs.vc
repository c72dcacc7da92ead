package media
// C18: codec registry
// a codec describes itself the same way every time it is asked
logic codecName
logic codecDisabled Bool
logic codecStatic Bool
logic codecType
iface Codec.Info(c) r
  ensures r.SDPName == codecName(c) && r.Disabled == codecDisabled(c) && r.RTPIsStatic == codecStatic(c) && r.RTPDefType == codecType(c)

// announcements to subscribers, in order; subscribers are assumed not to call back into the registry
ghost ann 1
ghost annF 2
ghost annC 2
functype func.Codec(f, c)
  set annF(0)[k] := ite(k == old(ann(0)), f, old(annF(0, k)))
  set annC(0)[k] := ite(k == old(ann(0)), sid(c), old(annC(0, k)))
  set ann(0) := old(ann(0)) + 1

def isoff(name) = dom(media.disabled, lower(name))
// the package variable is made by its initialiser and never assigned again
def regok() = disabled != nil && forall(k, 0, len(codecs), codecs[k] != nil) && forall(k, 0, len(codecOnRegister), codecOnRegister[k] != nil)

func CodecSetEnabled(name, enabled)
  prop C18
  requires regok()
  modifies mapof(disabled)
  ensures this: isoff(name) == !enabled
  ensures others: forall(k, old(isoff(k)) != isoff(k) ==> lower(k) == lower(name))

func CodecEnabledByName(name) r
  prop C18
  ensures r == !isoff(name)

func CodecEnabled(c) r
  prop C18
  nilable c
  ensures r == (c != nil && !isoff(codecName(c)))

func OnRegister(fnc)
  prop C18
  requires regok() && ann(0) >= 0
  modifies codecOnRegister, elemscap(codecOnRegister), ann(0), annF(0), annC(0)
  ensures all: ann(0) == old(ann(0)) + len(codecs) && forall(k, 0, len(codecs), annF(0, old(ann(0)) + k) == fnc && annC(0, old(ann(0)) + k) == sid(codecs[k]))
  ensures keep: forall(k, 0, old(ann(0)), annF(0, k) == old(annF(0, k)) && annC(0, k) == old(annC(0, k)))
  ensures inv: regok()
  ensures added: len(codecOnRegister) == old(len(codecOnRegister)) + 1 && codecOnRegister[old(len(codecOnRegister))] == fnc && forall(k, 0, old(len(codecOnRegister)), codecOnRegister[k] == old(codecOnRegister[k]))
  loop cnt: ann(0) == atloop(ann(0)) + $i
  loop cnt1: ann(0) == atloop(ann(0)) + $i + 1
  loop told: forall(k, old(ann(0)), ann(0), annF(0, k) == fnc && annC(0, k) == sid(codecs[k - old(ann(0))]))
  loop keep: forall(k, 0, old(ann(0)), annF(0, k) == old(annF(0, k)) && annC(0, k) == old(annC(0, k)))

func RegisterCodec(c)
  prop C18
  requires c != nil && regok() && ann(0) >= 0
  modifies codecs, elemscap(codecs), ann(0), annF(0), annC(0), mapof(disabled)
  ensures inv: regok()
  ensures last: len(codecs) == old(len(codecs)) + 1 && codecs[old(len(codecs))] == c && forall(k, 0, old(len(codecs)), codecs[k] == old(codecs[k]))
  ensures told: ann(0) == old(ann(0)) + len(codecOnRegister) && forall(k, 0, len(codecOnRegister), annF(0, old(ann(0)) + k) == codecOnRegister[k] && annC(0, old(ann(0)) + k) == sid(c))
  ensures keep: forall(k, 0, old(ann(0)), annF(0, k) == old(annF(0, k)) && annC(0, k) == old(annC(0, k)))
  ensures off: codecDisabled(c) ==> isoff(codecName(c))
  ensures others: forall(k, old(isoff(k)) != isoff(k) ==> codecDisabled(c) && lower(k) == lower(codecName(c)))
  loop cnt: ann(0) == atloop(ann(0)) + $i
  loop cnt1: ann(0) == atloop(ann(0)) + $i + 1
  loop told: forall(k, old(ann(0)), ann(0), annF(0, k) == codecOnRegister[k - old(ann(0))] && annC(0, k) == sid(c))
  loop keep: forall(k, 0, old(ann(0)), annF(0, k) == old(annF(0, k)) && annC(0, k) == old(annC(0, k)))

func Codecs() r
  prop C18
  ensures copy: len(r) == len(codecs) && forall(k, 0, len(codecs), r[k] == codecs[k])
  ensures own: ref(r) != ref(codecs) || len(codecs) == 0

func EnabledCodecs() r
  prop C18
  requires regok()
  // cnt(j): how many of the first j codecs are enabled
  define cnt(j) := 0 ; cnt(j - 1) + ite(isoff(codecName(codecs[j - 1])), 0, 1)
  unfold cnt(0)
  unfold cnt($i)
  unfold cnt($i + 1)
  ensures count: len(r) == cnt(len(codecs))
  ensures inorder: forall(k, 0, len(codecs), !isoff(codecName(codecs[k])) ==> cnt(k) < len(r) && r[cnt(k)] == codecs[k])
  loop count: len($s) == cnt($i)
  loop count1: len($s) == cnt($i + 1)
  loop inorder: forall(k, 0, $i, !isoff(codecName(codecs[k])) ==> cnt(k) < len($s) && $s[cnt(k)] == codecs[k])
  loop inorder1: forall(k, 0, $i + 1, !isoff(codecName(codecs[k])) ==> cnt(k) < len($s) && $s[cnt(k)] == codecs[k])
  loop own: ref($s) > old(top)

func NewCodec(info) r
  prop C18
  requires info.SampleRate > 0
  ensures typeis(r, *baseCodec)
  ensures same: unbox(r, *baseCodec).info.SDPName == info.SDPName && unbox(r, *baseCodec).info.SampleRate == info.SampleRate && unbox(r, *baseCodec).info.RTPDefType == info.RTPDefType && unbox(r, *baseCodec).info.RTPIsStatic == info.RTPIsStatic && unbox(r, *baseCodec).info.Priority == info.Priority && unbox(r, *baseCodec).info.Disabled == info.Disabled && unbox(r, *baseCodec).info.FileExt == info.FileExt
  ensures clock: unbox(r, *baseCodec).info.RTPClockRate == ite(info.RTPClockRate == 0, info.SampleRate, info.RTPClockRate)

func baseCodec.Info(c) r
  prop C18
  ensures r == c.info

package sdp
func init#1$1(c)
  prop C18
  requires c != nil && codecByName != nil
  modifies mapof(codecByName)
  ensures known: codecName(c) != "" ==> dom(codecByName, lower(codecName(c))) && codecByName[lower(codecName(c))] == c
  ensures mono: intfn("fn:strings.Count", lower(codecName(c)), "/") == 1 && codecName(c) != "" ==> codecByName[concat(lower(codecName(c)), "/1")] == c
  ensures keep: forall(k, k != lower(codecName(c)) && (codecName(c) == "" || intfn("fn:strings.Count", lower(codecName(c)), "/") != 1 || k != concat(lower(codecName(c)), "/1")) ==> dom(codecByName, k) == old(dom(codecByName, k)) && codecByName[k] == old(codecByName[k]))

func CodecByName(name) r
  prop C18
  ensures found: dom(codecByName, lower(name)) && codecByName[lower(name)] != nil && !isoff(codecName(codecByName[lower(name)])) ==> r == codecByName[lower(name)]
  ensures none: !dom(codecByName, lower(name)) || codecByName[lower(name)] == nil || isoff(codecName(codecByName[lower(name)])) ==> r == nil

package rtp
func init#1$1(c)
  prop C18, C10
  requires c != nil
  modifies codecByType
  ensures static: codecStatic(c) ==> codecByType[codecType(c)] == c
  ensures others: forall(k, 0, 256, k != codecType(c) || !codecStatic(c) ==> codecByType[k] == old(codecByType[k]))

func audioCodec.Info(c) r
  prop C18
  ensures r == c.info
func NewAudioCodec(info, decode, encode) r
  prop C18
  requires info.SampleRate > 0
  ensures typeis(r, *audioCodec)
