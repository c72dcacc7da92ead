package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val struct {
	ts  []*Term
	loc *Loc
}

func (v Val) t() *Term {
	if len(v.ts) != 1 {
		panic(fmt.Sprintf("value with %d leaves used as scalar", len(v.ts)))
	}
	return v.ts[0]
}

func one(t *Term) Val { return Val{ts: []*Term{t}} }

type locKind int

const (
	lField locKind = iota // key prefix + ref
	lElem                 // element heap of elemT: backing ref, index, leaf offset
	lCell                 // executor-local variable
	lRef                  // boxed variable C:type at ref
	lGlobal
)

// Loc is the address of a value that is not itself an object.
type Loc struct {
	kind  locKind
	key   string
	ref   *Term
	idx   *Term
	elemT types.Type
	leaf  int // first leaf within elemT (lElem) or within the cell (lCell)
	typ   types.Type
	cell  *cellID
	field string // pkg.T.f for guards
	base  *Term  // the object the field belongs to
}

type cellID struct {
	name string
	typ  types.Type
	n    int
}

type Closure struct {
	fn   *ssa.Function
	bind []Val
	name string
}

var closures = map[*Term]*Closure{}

func fnTerm(fn *ssa.Function) *Term {
	t := NamedVar("fn:"+fn.String(), SInt)
	if !t.rng {
		t.rng, t.lo = true, bigOne
	}
	closures[t] = &Closure{fn: fn, name: fn.String()}
	return t
}

type ekey struct {
	frame int
	v     ssa.Value
}

type deferred struct {
	instr *ssa.Defer
	fv    Val
	args  []Val
}

type lockKey struct {
	id string
}

type lockInfo struct {
	write bool
	ref   *Term
	field string
}

type loopActive struct {
	frame int
	head  *ssa.BasicBlock
}

type State struct {
	clk *Term // first clock reading on this path
	env     map[ekey]Val
	cells   map[*cellID]Val
	heap    map[string]*Term
	sorts   map[string]*Sort
	epoch   string
	facts   []*Term
	fset    map[*Term]bool
	top     *Term
	held    map[string]lockInfo
	locked  map[string]bool // mutexes acquired at least once
	defers  map[int][]deferred
	loops   map[loopActive]*loopCtx
	sels    map[*ssa.BasicBlock]int
	trail   []string
	depth   int
	newObjs []newObj
}

func (s *State) clone() *State {
	n := *s
	n.env = make(map[ekey]Val, len(s.env)+8)
	for k, v := range s.env {
		n.env[k] = v
	}
	n.cells = make(map[*cellID]Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.fset = make(map[*Term]bool, len(s.fset)+8)
	for k := range s.fset {
		n.fset[k] = true
	}
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.trail = s.trail[:len(s.trail):len(s.trail)]
	n.newObjs = s.newObjs[:len(s.newObjs):len(s.newObjs)]
	n.held = make(map[string]lockInfo, len(s.held))
	for k, v := range s.held {
		n.held[k] = v
	}
	n.locked = make(map[string]bool, len(s.locked))
	for k, v := range s.locked {
		n.locked[k] = v
	}
	n.defers = make(map[int][]deferred, len(s.defers))
	for k, v := range s.defers {
		n.defers[k] = v[:len(v):len(v)]
	}
	n.loops = make(map[loopActive]*loopCtx, len(s.loops))
	for k, v := range s.loops {
		n.loops[k] = v
	}
	return &n
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t.op == "and" {
			s.assume(t.args...)
			continue
		}
		if t == TTrue || s.fset[t] {
			continue
		}
		s.fset[t] = true
		s.facts = append(s.facts, t)
	}
}

func (s *State) dead() bool { return s.fset[TFalse] }

var heapSorts = map[string]*Sort{}
var heapLeaf = map[string]*Leaf{} // element leaf, for ranges

// heapVar names the initial contents of a heap key in an epoch.
func heapVar(key, epoch string, so *Sort) *Term {
	t := NamedVar(key+"@"+epoch, so)
	setHeapRange(t, key)
	return t
}

func setHeapRange(t *Term, key string) {
	if l := heapLeaf[key]; l != nil && (l.lo != nil || l.hi != nil) {
		t.erLo, t.erHi = l.lo, l.hi
		if t.sort == SInt {
			t.rng, t.lo, t.hi = true, l.lo, l.hi
		}
	}
}

func regHeap(key string, so *Sort, l *Leaf) {
	if o, ok := heapSorts[key]; ok {
		if o != so {
			panic("heap sort clash for " + key)
		}
		return
	}
	heapSorts[key] = so
	if l != nil {
		b := l
		for b.elem != nil {
			b = b.elem
		}
		heapLeaf[key] = b
	}
}

func (s *State) get(key string) *Term {
	if t, ok := s.heap[key]; ok {
		return t
	}
	so, ok := heapSorts[key]
	if !ok {
		panic("unregistered heap " + key)
	}
	t := heapVar(key, s.epoch, so)
	return t
}

// ---------------------------------------------------------------- well-formedness of loaded values

func (x *Exec) wf(st *State, ls []*Leaf, ts []*Term) {
	for i := 0; i < len(ls); i++ {
		l, t := ls[i], ts[i]
		if t.bound {
			// elements of an array existing in this state refer to objects existing in this state
			if l.kind == kPtr && t.op == "select" && !t.args[0].bound {
				if r := rootArr(t.args[0]); r != nil && !strings.Contains(r.name, "F:") && !strings.Contains(r.name, "G:") {
					b := BoundVar("rj", SInt)
					e := Select(t.args[0], b)
					if e.op == "select" && e.args[0] == t.args[0] {
						st.assume(Forall([]*Term{b}, Le(e, st.top), []*Term{e}))
					}
				}
			}
			continue
		}
		if t.isInt() || t == TTrue || t == TFalse {
			continue
		}
		switch l.kind {
		case kInt:
			if !t.rng && (t.op == "var" || t.op == "select" || t.op == "app") {
				t.rng, t.lo, t.hi = true, l.lo, l.hi
			}
		case kPtr, kMap, kChan:
			if t.alloc || stripConst(t).alloc {
				continue
			}
			st.assume(Le(Int64(0), t), Le(t, st.top))
		case kFunc, kIface:
			st.assume(Le(Int64(0), t))
		case kStr:
			if t.op == "select" || t.op == "var" || t.op == "app" {
				st.assume(Le(Int64(0), x.strlen(st, t)))
			}
		case kArr:
			off, ln, cp := ts[i+1], ts[i+2], ts[i+3]
			if !t.alloc {
				st.assume(Le(Int64(0), t), Le(t, st.top))
			}
			st.assume(Le(Int64(0), off), Le(Int64(0), ln), Le(ln, cp), Le(Add(off, cp), IntBig(maxLen)))
			st.assume(Imp(Eq(t, Int64(0)), Eq(cp, Int64(0))))
			i += 3
		}
	}
}

// freshVal makes an arbitrary value of a type.
func (x *Exec) freshVal(st *State, name string, t types.Type) Val {
	ls := leaves(t)
	var v Val
	for _, l := range ls {
		f := Fresh(name+l.name, l.sort)
		if l.lo != nil || l.hi != nil {
			if l.sort == SInt {
				f.rng, f.lo, f.hi = true, l.lo, l.hi
			} else {
				f.erLo, f.erHi = l.lo, l.hi
			}
		}
		v.ts = append(v.ts, f)
	}
	x.wf(st, ls, v.ts)
	return v
}

func (x *Exec) freshAlloc(st *State, name string, size int64) *Term {
	r := Fresh("new_"+name, SInt)
	r.alloc = true
	r.rng, r.lo = true, bigOne
	st.assume(Lt(st.top, r))
	st.top = Add(r, Int64(size))
	return r
}

// ---------------------------------------------------------------- loads and stores

// loadAt reads a whole value of type t living at reference ref (aggregates) .
func (x *Exec) loadAgg(st *State, ref *Term, t types.Type) []*Term {
	if s := structOf(t); s != nil {
		var out []*Term
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if isAgg(f.Type()) {
				out = append(out, x.loadAgg(st, Add(ref, Int64(slotOf(s, i))), f.Type())...)
				continue
			}
			var vs []*Term
			for _, l := range leaves(f.Type()) {
				k, so := fieldHeap(t, f.Name(), l)
				regHeap(k, so, l)
				vs = append(vs, Select(st.get(k), ref))
			}
			x.wf(st, leaves(f.Type()), vs)
			out = append(out, vs...)
		}
		return out
	}
	a := core(t).(*types.Array)
	var out []*Term
	for _, l := range leaves(a.Elem()) {
		k, so := elemHeap(a.Elem(), l)
		regHeap(k, so, l)
		out = append(out, Select(st.get(k), ref))
	}
	return out
}

func (x *Exec) storeAgg(st *State, ref *Term, t types.Type, vs []*Term) {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			n := len(leaves(f.Type()))
			if isAgg(f.Type()) {
				x.storeAgg(st, Add(ref, Int64(slotOf(s, i))), f.Type(), vs[:n])
			} else {
				for j, l := range leaves(f.Type()) {
					k, so := fieldHeap(t, f.Name(), l)
					regHeap(k, so, l)
					x.write(st, k, ref, nil, vs[j])
				}
			}
			vs = vs[n:]
		}
		return
	}
	a := core(t).(*types.Array)
	for j, l := range leaves(a.Elem()) {
		k, so := elemHeap(a.Elem(), l)
		regHeap(k, so, l)
		x.writeArr(st, k, ref, vs[j])
	}
}

// write updates heap[key][ref] (or [ref][idx]).
func (x *Exec) write(st *State, key string, ref, idx, v *Term) {
	h := st.get(key)
	if idx != nil {
		v = Store(Select(h, ref), idx, v)
	}
	x.recordWrite(key, ref, idx)
	st.heap[key] = Store(h, ref, v)
}

func (x *Exec) writeArr(st *State, key string, ref, arr *Term) {
	x.recordWrite(key, ref, nil)
	st.heap[key] = Store(st.get(key), ref, arr)
}

func (x *Exec) setHeap(st *State, key string, v *Term) {
	x.recordWrite(key, nil, nil)
	st.heap[key] = v
}

func (x *Exec) recordWrite(key string, ref, idx *Term) {
	for _, r := range x.recs {
		r.add(key, ref, idx)
	}
}

func (x *Exec) load(st *State, p Val, t types.Type) Val {
	if p.loc == nil {
		ref := p.t()
		if isAgg(t) {
			return Val{ts: x.loadAgg(st, ref, t)}
		}
		return Val{ts: x.loadLoc(st, &Loc{kind: lRef, key: cKey(t), ref: ref, typ: t})}
	}
	ts := x.loadLoc(st, p.loc)
	return Val{ts: ts}
}

// constRef: an array variable that only package initialisation writes, read by any other code.
func (x *Exec) constRef(ref *Term) bool {
	return !x.inInit && !x.initUnit && ref.ival.IsInt64() && x.w.constRef[ref.ival.Int64()]
}

func (x *Exec) loadLoc(st *State, l *Loc) []*Term {
	ls := leaves(l.typ)
	var out []*Term
	switch l.kind {
	case lField, lRef:
		for _, lf := range ls {
			k := l.key + lf.name
			regHeap(k, ArrOf(lf.sort), lf)
			out = append(out, Select(st.get(k), l.ref))
		}
	case lElem:
		el := leaves(l.elemT)
		for i := range ls {
			k, so := elemHeap(l.elemT, el[l.leaf+i])
			regHeap(k, so, el[l.leaf+i])
			h := st.get(k)
			if l.ref.isInt() && x.constRef(l.ref) {
				h = heapVar(k, "0", so)
			}
			out = append(out, Select(Select(h, l.ref), l.idx))
		}
	case lCell:
		v, ok := st.cells[l.cell]
		if !ok {
			v = zeroVal(l.cell.typ)
			st.cells[l.cell] = v
		}
		out = v.ts[l.leaf : l.leaf+len(ls)]
		return out
	case lGlobal:
		for _, lf := range ls {
			k := l.key + lf.name
			regHeap(k, lf.sort, lf)
			out = append(out, st.get(k))
		}
	}
	x.wf(st, ls, out)
	return out
}

func (x *Exec) store(st *State, p Val, t types.Type, v Val) {
	if p.loc == nil {
		ref := p.t()
		if isAgg(t) {
			x.storeAgg(st, ref, t, v.ts)
			return
		}
		x.storeLoc(st, &Loc{kind: lRef, key: cKey(t), ref: ref, typ: t}, v.ts)
		return
	}
	x.storeLoc(st, p.loc, v.ts)
}

func (x *Exec) storeLoc(st *State, l *Loc, vs []*Term) {
	ls := leaves(l.typ)
	switch l.kind {
	case lField, lRef:
		for i, lf := range ls {
			k := l.key + lf.name
			regHeap(k, ArrOf(lf.sort), lf)
			x.write(st, k, l.ref, nil, vs[i])
		}
	case lElem:
		el := leaves(l.elemT)
		for i := range ls {
			k, so := elemHeap(l.elemT, el[l.leaf+i])
			regHeap(k, so, el[l.leaf+i])
			x.write(st, k, l.ref, l.idx, vs[i])
		}
	case lCell:
		old, ok := st.cells[l.cell]
		if !ok {
			old = zeroVal(l.cell.typ)
		}
		ts := append([]*Term{}, old.ts...)
		copy(ts[l.leaf:], vs)
		st.cells[l.cell] = Val{ts: ts}
		for _, r := range x.recs {
			r.cells[l.cell] = true
		}
	case lGlobal:
		for i, lf := range ls {
			k := l.key + lf.name
			regHeap(k, lf.sort, lf)
			x.recordWrite(k, nil, nil)
			st.heap[k] = vs[i]
		}
	}
}

// fieldAddr computes &p.f for struct type t at p.
func (x *Exec) fieldAddr(st *State, p Val, t types.Type, i int) Val {
	s := structOf(t)
	f := s.Field(i)
	if p.loc == nil {
		ref := p.t()
		if isAgg(f.Type()) {
			return one(Add(ref, Int64(slotOf(s, i))))
		}
		key := "F:" + structKey(t) + "." + f.Name()
		return Val{ts: []*Term{x.addrTerm(key, ref, nil)}, loc: &Loc{kind: lField, key: key, ref: ref, typ: f.Type(), field: structKey(t) + "." + f.Name(), base: ref}}
	}
	// address inside an element or cell: shift the leaf offset
	off := 0
	for k := 0; k < i; k++ {
		off += len(leaves(s.Field(k).Type()))
	}
	nl := *p.loc
	nl.leaf += off
	nl.typ = f.Type()
	return Val{ts: []*Term{x.addrTerm(fmt.Sprintf("L%d:%s", nl.leaf, f.Name()), p.ts[0], nil)}, loc: &nl}
}

func (x *Exec) addrTerm(key string, ref, idx *Term) *Term {
	a := []*Term{ref}
	if idx != nil {
		a = append(a, idx)
	}
	t := App("addr:"+key, SInt, a...)
	if !t.rng {
		t.rng, t.lo = true, bigOne
	}
	return t
}

// elemAddr computes &backing[idx] (idx already includes the slice offset).
func (x *Exec) elemAddr(arr, idx *Term, elem types.Type) Val {
	return Val{ts: []*Term{x.addrTerm("E:"+typeKey(elem), arr, idx)}, loc: &Loc{kind: lElem, ref: arr, idx: idx, elemT: elem, typ: elem}}
}

// ---------------------------------------------------------------- write recorder (loop analysis)

type recorder struct {
	refs  map[string]map[*Term]bool // heap key -> references written
	any   map[string]bool
	cells map[*cellID]bool
	epoch bool
}

func newRecorder() *recorder {
	return &recorder{refs: map[string]map[*Term]bool{}, any: map[string]bool{}, cells: map[*cellID]bool{}}
}

func (r *recorder) add(key string, ref, idx *Term) {
	if ref == nil {
		r.any[key] = true
		return
	}
	m := r.refs[key]
	if m == nil {
		m = map[*Term]bool{}
		r.refs[key] = m
	}
	m[ref] = true
}

func (r *recorder) size() int {
	n := len(r.any) + len(r.cells)
	for _, m := range r.refs {
		n += len(m)
	}
	return n
}

func (r *recorder) keys() []string {
	set := map[string]bool{}
	for k := range r.refs {
		set[k] = true
	}
	for k := range r.any {
		set[k] = true
	}
	var ks []string
	for k := range set {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// globalKey of a package variable.
func globalKey(g *ssa.Global) string {
	return "GV:" + g.Pkg.Pkg.Path()[strings.LastIndex(g.Pkg.Pkg.Path(), "/")+1:] + "." + g.Name()
}
