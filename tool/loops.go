package main

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

// natural loops of a function (header -> body).
func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	res := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				li := res[s]
				if li == nil {
					li = &loopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = li
				}
				// collect the body backwards from b
				work := []*ssa.BasicBlock{b}
				for len(work) > 0 {
					n := work[len(work)-1]
					work = work[:len(work)-1]
					if li.blocks[n] {
						continue
					}
					li.blocks[n] = true
					work = append(work, n.Preds...)
				}
			}
		}
	}
	return res
}

type loopCtx struct {
	frame    int
	info     *loopInfo
	exitSeen bool
	back     func(st *State, prev *ssa.BasicBlock)
	unroll   int
	conds    []*Term
	phis     []*ssa.Phi
	held     map[string]lockInfo
}

// invCand is a candidate loop invariant, evaluated at a state with given phi values.
type invCand struct {
	label string
	f     func(s *State, pv []Val) *Term
	user  bool
}

func loopPhis(b *ssa.BasicBlock) (ps []*ssa.Phi) {
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ps = append(ps, p)
	}
	return
}

func (x *Exec) loopKey(fr *Frame, b *ssa.BasicBlock) string {
	var sb strings.Builder
	for f := fr; f != nil; f = f.parent {
		fmt.Fprintf(&sb, "%s<", f.fn.Name())
	}
	fmt.Fprintf(&sb, "#%d", b.Index)
	return sb.String()
}

func (x *Exec) unrollStep(st *State, fr *Frame, b, prev *ssa.BasicBlock, ctx *loopCtx) {
	n := *ctx
	n.unroll--
	if n.unroll == 0 {
		x.oblige(st, "unwind", x.loopKey(fr, b), TFalse, b.Instrs[0].Pos())
		return
	}
	st.loops[loopActive{fr.id, b}] = &n
	x.phis(st, fr, b, prev)
	x.runFrom(st, fr, b, x.firstNonPhi(b))
}

// unrollBound: an explicit `unroll` clause of the function's own contract.
func (x *Exec) unrollBound(fr *Frame) int {
	if x.initUnit && x.unit.c.unroll > 0 {
		return x.unit.c.unroll
	}
	if _, c := x.w.contractOf(fr.fn); c != nil && c.unroll > 0 {
		return c.unroll
	}
	if fr.parent != nil && fr.fn.Parent() != nil && fr.fn.Parent() == fr.parent.fn {
		return x.unrollBound(fr.parent)
	}
	return 0
}

func (x *Exec) enterLoop(st *State, fr *Frame, b, prev *ssa.BasicBlock, li *loopInfo) {
	act := loopActive{fr.id, b}
	if n := x.unrollBound(fr); n > 0 {
		st.loops[act] = &loopCtx{frame: fr.id, info: li, unroll: n + 1}
		x.phis(st, fr, b, prev)
		x.runFrom(st, fr, b, x.firstNonPhi(b))
		return
	}
	phis := loopPhis(b)
	init := x.phiVals(st, fr, b, prev)
	for i, v := range init {
		if v.loc != nil {
			x.bail("interior pointer carried by a loop (%s)", phis[i].Comment)
		}
	}
	startSeq := seqCnt
	dbg := os.Getenv("GOVC_LOOPS") != ""

	// ---- discovery of what the loop may change
	mod := newRecorder()
	var conds []*Term
	var discPV []Val
	for round := 0; ; round++ {
		s := st.clone()
		x.loopHavoc(s, st, mod, startSeq)
		pv := x.freshPhis(s, fr, phis)
		x.unfoldLoop(s, fr, b, phis, pv, mod)
		discPV = pv
		rec := newRecorder()
		ctx := &loopCtx{frame: fr.id, info: li, phis: phis, back: func(*State, *ssa.BasicBlock) {}}
		s.loops[act] = ctx
		x.quiet++
		x.recs = append(x.recs, rec)
		x.restr = append(x.restr, ctx)
		x.runLoopBody(s, fr, b, phis, pv)
		x.restr = x.restr[:len(x.restr)-1]
		x.recs = x.recs[:len(x.recs)-1]
		x.quiet--
		conds = ctx.conds
		before := mod.size()
		for k, m := range rec.refs {
			for r := range m {
				mod.add(k, r, nil)
			}
		}
		for k := range rec.any {
			mod.any[k] = true
		}
		for c := range rec.cells {
			if _, ok := st.cells[c]; ok { // cells created inside the loop do not matter
				mod.cells[c] = true
			}
		}
		if rec.epoch {
			mod.epoch = true
		}
		mod.normalise(startSeq)
		if mod.size() == before && round > 0 || round > 6 {
			break
		}
	}

	x.unfoldLoop(st, fr, b, phis, init, mod)
	// ---- candidate invariants
	cands := x.candidates(st, fr, b, phis, init, mod, conds, discPV, startSeq)
	key := x.loopKey(fr, b)
	var alive []*invCand
	dropped := x.droppedInv[key]
	var goals []*Term
	var cc []*invCand
	for _, c := range cands {
		if dropped[c.label] {
			continue
		}
		g := c.f(st, init)
		if g == nil || g == TFalse {
			continue
		}
		goals = append(goals, g)
		cc = append(cc, c)
	}
	tmEntry, tmKeep, tmFirst, tmLast := 1500, 2500, 800, 1500
	if x.unit.c != nil && x.unit.c.named != "" {
		tmFirst, tmLast = 250, 8000
	}
	if len(x.recs) > 0 {
		tmEntry, tmKeep = 300, 300 // only exploring what an enclosing loop modifies
	}
	oks := x.pool.validMany(st.facts, goals, tmEntry, tmFirst, tmLast, func(i int) bool { return cc[i].user && len(x.recs) == 0 && !x.failed[key+cc[i].label] })
	for i, c := range cc {
		if oks[i] {
			alive = append(alive, c)
			continue
		}
		if len(x.recs) == 0 && x.unit.c != nil && x.unit.c.named != "" {
			x.failed[key+c.label] = true // on another path: not worth the long attempt again
		}
		if dbg {
			fmt.Fprintf(os.Stderr, "loop %s: entry fails: %s\n", key, c.label)
			if d := os.Getenv("GOVC_DUMP"); d != "" {
				os.WriteFile(filepath.Join(d, sanitizeFile("entry_"+c.label)+".smt2"), []byte(buildQuery(st.facts, goals[i])+"(check-sat)\n"), 0o644)
			}
		}
	}
	// ---- Houdini
	for round := 0; round < 12; round++ {
		s := st.clone()
		x.loopHavoc(s, st, mod, startSeq)
		pv := x.freshPhis(s, fr, phis)
		x.unfoldLoop(s, fr, b, phis, pv, mod)
		for _, c := range alive {
			if g := c.f(s, pv); g != nil {
				s.assume(g)
			}
		}
		type chk struct {
			facts []*Term
			goals []*Term
			idx   []int
		}
		var chks []chk
		ctx := &loopCtx{frame: fr.id, info: li, phis: phis}
		ctx.back = func(s2 *State, p *ssa.BasicBlock) {
			npv := x.phiVals(s2, fr, b, p)
			ck := chk{facts: s2.facts}
			for i, c := range alive {
				g := c.f(s2, npv)
				if g == nil {
					g = TFalse
				}
				if g == TTrue || s2.fset[g] {
					continue
				}
				ck.goals = append(ck.goals, g)
				ck.idx = append(ck.idx, i)
			}
			ck.facts = s2.facts
			chks = append(chks, ck)
		}
		s.loops[act] = ctx
		x.quiet++
		x.restr = append(x.restr, ctx)
		x.runLoopBody(s, fr, b, phis, pv)
		x.restr = x.restr[:len(x.restr)-1]
		x.quiet--
		bad := map[int]bool{}
		for _, ck := range chks {
			var gs []*Term
			var ix []int
			for i, g := range ck.goals {
				if !bad[ck.idx[i]] {
					gs = append(gs, g)
					ix = append(ix, ck.idx[i])
				}
			}
			for i, ok := range x.pool.validMany(ck.facts, gs, tmKeep, tmFirst, max(tmLast, tmKeep), func(i int) bool { return alive[ix[i]].user }) {
				if !ok {
					if d := os.Getenv("GOVC_DUMP"); d != "" {
						os.WriteFile(filepath.Join(d, sanitizeFile("inv_"+fmt.Sprint(round)+"_"+alive[ix[i]].label)+".smt2"), []byte(buildQuery(ck.facts, gs[i])+"(check-sat)\n"), 0o644)
					}
					bad[ix[i]] = true
				}
			}
		}
		if len(bad) == 0 {
			break
		}
		var keep []*invCand
		for i, c := range alive {
			if bad[i] {
				if dbg {
					fmt.Fprintf(os.Stderr, "loop %s: not preserved: %s\n", key, c.label)
				}
				if len(x.recs) > 0 {
					continue // an enclosing loop is being explored without its invariants
				}
				if x.droppedInv[key] == nil {
					x.droppedInv[key] = map[string]bool{}
				}
				x.droppedInv[key][c.label] = true
			} else {
				keep = append(keep, c)
			}
		}
		alive = keep
	}
	if dbg {
		for _, c := range alive {
			fmt.Fprintf(os.Stderr, "loop %s: invariant: %s\n", key, c.label)
		}
		for _, k := range mod.keys() {
			fmt.Fprintf(os.Stderr, "loop %s: modifies %s any=%v refs=%d\n", key, k, mod.any[k], len(mod.refs[k]))
		}
	}

	// ---- the real pass
	for _, c := range alive {
		x.oblige(st, "loopinv", "entry "+c.label, c.f(st, init), b.Instrs[0].Pos())
	}
	s := st // continue on the same path
	pre := st.clone()
	x.loopHavoc(s, pre, mod, startSeq)
	pv := x.freshPhis(s, fr, phis)
	x.unfoldLoop(s, fr, b, phis, pv, mod)
	for _, c := range alive {
		if g := c.f(s, pv); g != nil {
			s.assume(g)
		}
	}
	ctx := &loopCtx{frame: fr.id, info: li, phis: phis, held: pre.held}
	ctx.back = func(s2 *State, p *ssa.BasicBlock) {
		npv := x.phiVals(s2, fr, b, p)
		for _, c := range alive {
			g := c.f(s2, npv)
			if g == nil {
				g = TFalse
			}
			x.oblige(s2, "loopinv", "kept "+c.label, g, b.Instrs[0].Pos())
		}
		same := len(s2.held) == len(ctx.held)
		for k := range s2.held {
			if _, ok := ctx.held[k]; !ok {
				same = false
			}
		}
		x.oblige(s2, "lock", "balanced in loop", BoolT(same), b.Instrs[0].Pos())
	}
	for _, rc := range x.recs { // outer loops see what this loop changes
		for k, m := range mod.refs {
			for r := range m {
				rc.add(k, r, nil)
			}
		}
		for k := range mod.any {
			rc.any[k] = true
		}
		for c := range mod.cells {
			rc.cells[c] = true
		}
		rc.epoch = rc.epoch || mod.epoch
	}
	s.loops[act] = ctx
	x.runLoopBody(s, fr, b, phis, pv)
}

func (x *Exec) runLoopBody(s *State, fr *Frame, b *ssa.BasicBlock, phis []*ssa.Phi, pv []Val) {
	for i, p := range phis {
		x.set(s, fr, p, pv[i])
	}
	x.guard(s, "", func() { x.runFrom(s, fr, b, x.firstNonPhi(b)) })
}

func (x *Exec) freshPhis(s *State, fr *Frame, phis []*ssa.Phi) (pv []Val) {
	for _, p := range phis {
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		v := x.freshVal(s, "loop_"+n, p.Type())
		if p.Comment == "rangeindex" && len(v.ts) == 1 {
			// by construction a range index over a slice or array runs from -1 to len-1
			t := v.ts[0]
			t.rng, t.lo, t.hi = true, big.NewInt(-1), maxLen
			s.assume(Le(Int64(-1), t), Le(t, IntBig(maxLen)))
		}
		pv = append(pv, v)
	}
	return
}

// normalise splits recorded references into loop-invariant ones and others.
func (r *recorder) normalise(start int) {
	for k, m := range r.refs {
		for t := range m {
			if t.seq > start {
				delete(m, t)
				if stripConst(t).alloc || allocLike[t] {
					m[freshMark] = true
				} else {
					r.any[k] = true
				}
			}
		}
	}
}

var freshMark = NamedVar("$fresh", SInt)

func (x *Exec) loopHavoc(s, pre *State, mod *recorder, start int) {
	if mod.epoch {
		x.havocAll(s)
	}
	nt := Fresh("top", SInt)
	s.assume(Le(pre.top, nt))
	s.top = nt
	for _, k := range mod.keys() {
		so := heapSorts[k]
		if mod.any[k] {
			f := Fresh("l_"+k, so)
			setHeapRange(f, k)
			s.heap[k] = f
			continue
		}
		refs := mod.refs[k]
		var rs []*Term
		for r := range refs {
			if r != freshMark {
				rs = append(rs, r)
			}
		}
		sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
		h := s.get(k)
		if refs[freshMark] {
			// objects allocated by earlier iterations: everything above the old top is arbitrary
			f := Fresh("l_"+k, so)
			setHeapRange(f, k)
			r := BoundVar("r", SInt)
			g := Le(r, pre.top)
			s.assume(Forall([]*Term{r}, Imp(g, Eq(Select(f, r), Select(h, r))), []*Term{Select(f, r)}))
			h = f
		}
		for _, r := range rs {
			v := Fresh("l_"+k, so.elem)
			if l := heapLeaf[k]; l != nil && (l.lo != nil || l.hi != nil) {
				v.erLo, v.erHi = l.lo, l.hi
				if v.sort == SInt {
					v.rng, v.lo, v.hi = true, l.lo, l.hi
				}
			}
			h = Store(h, r, v)
		}
		s.heap[k] = h
	}
	x.nameHeap(s)
	var cs []*cellID
	for c := range mod.cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].n < cs[j].n })
	for _, c := range cs {
		if v, ok := pre.cells[c]; ok {
			if v.loc != nil {
				x.bail("interior pointer in a variable changed by a loop")
			}
			s.cells[c] = x.freshVal(s, "loop_"+c.name, c.typ)
		}
	}
}

// ---------------------------------------------------------------- candidate invariants

type subject struct {
	name string
	typ  types.Type
	get  func(s *State, pv []Val) Val
	out  bool // belongs to an enclosing loop (does not change in this one)
	dst  bool // a slice from before the loop whose elements the loop writes
	obj  bool
}

func classOf(t types.Type) byte {
	switch u := core(t).(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return 'i'
		}
		if u.Info()&types.IsBoolean != 0 {
			return 'b'
		}
		if u.Info()&types.IsString != 0 {
			return 't'
		}
	case *types.Slice:
		return 's'
	case *types.Pointer:
		return 'p'
	case *types.Interface:
		return 'e'
	case *types.Map:
		return 'm'
	case *types.Array:
		return 'a'
	}
	return 'x'
}

func classFits(s subject, cls byte) bool {
	if cls == 'o' {
		return s.out && classOf(s.typ) == 'i'
	}
	if cls == 'u' || s.obj {
		return s.obj && cls == 'u'
	}
	if cls == 'd' || s.dst {
		return s.dst && cls == 'd'
	}
	return !s.out && (cls == 'x' || classOf(s.typ) == cls)
}

func metaClass(n string) byte {
	switch n[1] {
	case 'i', 'j', 'k', 'n':
		return 'i'
	case 'o':
		return 'o' // integer of an enclosing loop
	case 's', 'r':
		return 's'
	case 'd':
		return 'd' // slice written by the loop
	case 'p', 'q':
		return 'p'
	case 'b':
		return 'b'
	case 'e', 'w':
		return 'e'
	case 't':
		return 't'
	case 'm':
		return 'm'
	case 'u':
		return 'u' // object allocated before the loop
	}
	return 'x'
}

func metasIn(e *Expr, set map[string]bool) {
	if e == nil {
		return
	}
	if e.op == "meta" {
		set[e.name] = true
	}
	for _, a := range e.args {
		metasIn(a, set)
	}
}

func (x *Exec) subjects(st *State, frame int, blk *ssa.BasicBlock, phis []*ssa.Phi, mod *recorder) (subs []subject) {
	for i, p := range phis {
		i := i
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		subs = append(subs, subject{name: nm, typ: p.Type(), get: func(s *State, pv []Val) Val { return pv[i] }})
		if classOf(p.Type()) == 'i' && (p.Comment == "rangeindex" || strings.HasPrefix(p.Comment, "rangeindex")) {
			subs = append(subs, subject{name: nm + "+1", typ: p.Type(), get: func(s *State, pv []Val) Val { return one(Add(pv[i].t(), Int64(1))) }})
		}
	}
	var cs []*cellID
	for c := range mod.cells {
		cs = append(cs, c)
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].n < cs[j].n })
	for _, c := range cs {
		c := c
		subs = append(subs, subject{name: "var " + c.name, typ: c.typ, get: func(s *State, pv []Val) Val {
			v, ok := s.cells[c]
			if !ok {
				return zeroVal(c.typ)
			}
			return v
		}})
	}
	// variables of enclosing loops
	var outs []subject
	for act, ctx := range st.loops {
		if ctx.unroll > 0 || act.head == blk && act.frame == frame {
			continue
		}
		for _, p := range ctx.phis {
			key := ekey{act.frame, p}
			v, ok := st.env[key]
			if !ok {
				continue
			}
			nm := p.Comment
			if nm == "" {
				nm = p.Name()
			}
			outs = append(outs, subject{name: fmt.Sprintf("outer%d.%d %s", act.frame, act.head.Index, nm), typ: p.Type(), out: true, get: func(s *State, pv []Val) Val { return v }})
			if classOf(p.Type()) == 'i' && strings.HasPrefix(p.Comment, "rangeindex") {
				outs = append(outs, subject{name: fmt.Sprintf("outer%d.%d %s+1", act.frame, act.head.Index, nm), typ: p.Type(), out: true, get: func(s *State, pv []Val) Val { return one(Add(v.t(), Int64(1))) }})
			}
		}
	}
	sort.Slice(outs, func(i, j int) bool { return outs[i].name < outs[j].name })
	if li := findLoops(blk.Parent())[blk]; li != nil {
		seen := map[ssa.Value]bool{}
		for _, b := range blk.Parent().Blocks {
			if !li.blocks[b] {
				// buffers made before the loop, which it may fill through other names
				for _, in := range b.Instrs {
					if a, ok := in.(*ssa.Alloc); ok && a.Heap && structOf(deref(a.Type())) != nil {
						if v, ok := st.env[ekey{frame, a}]; ok {
							subs = append(subs, subject{name: "new " + a.Name(), typ: a.Type(), obj: true, get: func(*State, []Val) Val { return v }})
						}
					}
					c, ok := in.(*ssa.Call)
					if !ok || seen[c] || classOf(c.Type()) != 's' {
						continue
					}
					if _, tup := c.Type().(*types.Tuple); tup {
						continue
					}
					if v, ok := st.env[ekey{frame, c}]; ok {
						seen[c] = true
						subs = append(subs, subject{name: "dst " + c.Name(), typ: c.Type(), dst: true, get: func(*State, []Val) Val { return v }})
					}
				}
				continue
			}
			for _, in := range b.Instrs {
				w, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				ia, ok := w.Addr.(*ssa.IndexAddr)
				if !ok || seen[ia.X] || classOf(ia.X.Type()) != 's' {
					continue
				}
				if d, ok := ia.X.(ssa.Instruction); ok && li.blocks[d.Block()] {
					continue
				}
				if v, ok := st.env[ekey{frame, ia.X}]; ok {
					seen[ia.X] = true
					subs = append(subs, subject{name: "dst " + ia.X.Name(), typ: ia.X.Type(), dst: true, get: func(*State, []Val) Val { return v }})
				}
			}
		}
	}
	return append(subs, outs...)
}

// unfoldLoop assumes the equations named by unfold clauses at a loop head, for all choices of loop variables.
func (x *Exec) unfoldLoop(s *State, fr *Frame, b *ssa.BasicBlock, phis []*ssa.Phi, pv []Val, mod *recorder) {
	if x.unit.c == nil || len(x.unit.c.unfolds) == 0 {
		return
	}
	subs := x.subjects(s, fr.id, b, phis, mod)
	for _, e := range x.unit.c.unfolds {
		ms := map[string]bool{}
		metasIn(e, ms)
		var names []string
		for n := range ms {
			names = append(names, n)
		}
		sort.Strings(names)
		metas := map[string]func(*State) SVal{}
		var assign func(k int)
		assign = func(k int) {
			if k == len(names) {
				x.unfold(s, e, metas)
				return
			}
			cls := metaClass(names[k])
			for _, sb := range subs {
				if !classFits(sb, cls) {
					continue
				}
				v := sb.get(s, pv)
				sb := sb
				metas[names[k]] = func(*State) SVal { return SVal{v: v, t: sb.typ} }
				assign(k + 1)
			}
		}
		assign(0)
	}
}

func (x *Exec) candidates(st *State, fr *Frame, b *ssa.BasicBlock, phis []*ssa.Phi, init []Val, mod *recorder, conds []*Term, discPV []Val, start int) (out []*invCand) {
	subs := x.subjects(st, fr.id, b, phis, mod)
	pre := st.clone()
	initOf := func(s subject) Val { return s.get(pre, init) }
	add := func(label string, f func(s *State, pv []Val) *Term) {
		out = append(out, &invCand{label: label, f: f})
	}
	// automatic candidates
	for i := range subs {
		s := subs[i]
		if s.out {
			continue
		}
		switch classOf(s.typ) {
		case 'i':
			iv := initOf(s).t()
			add(s.name+" >= start", func(st *State, pv []Val) *Term { return Le(iv, s.get(st, pv).t()) })
			add(s.name+" <= start", func(st *State, pv []Val) *Term { return Le(s.get(st, pv).t(), iv) })
			for j := 0; j < i; j++ {
				o := subs[j]
				if classOf(o.typ) != 'i' || strings.HasSuffix(s.name, "+1") || strings.HasSuffix(o.name, "+1") {
					continue
				}
				ov := initOf(o).t()
				add(s.name+" in step with "+o.name, func(st *State, pv []Val) *Term {
					return Eq(Sub(s.get(st, pv).t(), iv), Sub(o.get(st, pv).t(), ov))
				})
			}
		case 's':
			iv := initOf(s)
			add(s.name+" same array", func(st *State, pv []Val) *Term { return Eq(s.get(st, pv).ts[0], iv.ts[0]) })
			top := st.top
			add(s.name+" own array", func(st *State, pv []Val) *Term {
				a := s.get(st, pv).ts[0]
				return Or(Eq(a, iv.ts[0]), Lt(top, a))
			})
			add(s.name+" same end", func(st *State, pv []Val) *Term {
				v := s.get(st, pv)
				return Eq(Add(v.ts[1], v.ts[2]), Add(iv.ts[1], iv.ts[2]))
			})
			add(s.name+" same cap end", func(st *State, pv []Val) *Term {
				v := s.get(st, pv)
				return Eq(Add(v.ts[1], v.ts[3]), Add(iv.ts[1], iv.ts[3]))
			})
			add(s.name+" offset grows", func(st *State, pv []Val) *Term { return Le(iv.ts[1], s.get(st, pv).ts[1]) })
			add(s.name+" same offset", func(st *State, pv []Val) *Term { return Eq(iv.ts[1], s.get(st, pv).ts[1]) })
		case 'p':
			add(s.name+" non-nil", func(st *State, pv []Val) *Term { return Ne(s.get(st, pv).ts[0], Int64(0)) })
		case 'e':
			add(s.name+" nil", func(st *State, pv []Val) *Term { return Eq(s.get(st, pv).t(), Int64(0)) })
		case 'b':
			iv := initOf(s).t()
			add(s.name+" unchanged", func(st *State, pv []Val) *Term { return Eq(s.get(st, pv).t(), iv) })
		}
	}
	// bounds taken from the loop's own exit conditions
	phiSyms := map[*Term]bool{}
	for _, v := range discPV {
		for _, t := range v.ts {
			phiSyms[t] = true
		}
	}
	var stable func(t *Term) bool
	memo := map[*Term]bool{}
	stable = func(t *Term) bool {
		if phiSyms[t] {
			return true
		}
		if t.op == "var" {
			return t.seq <= start
		}
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = true
		r := true
		for _, a := range t.args {
			if !stable(a) {
				r = false
			}
		}
		memo[t] = r
		return r
	}
	seen := map[*Term]bool{}
	for ci, c := range conds {
		if seen[c] || !stable(c) {
			continue
		}
		seen[c] = true
		var weak []*Term
		d := c
		neg := false
		if d.op == "not" {
			d, neg = d.args[0], true
		}
		switch d.op {
		case "<", "<=":
			a, bb := d.args[0], d.args[1]
			if neg {
				a, bb = bb, a
			}
			weak = append(weak, Le(a, bb), Le(a, Add(bb, Int64(1))), Le(bb, a))
		case "=":
			if d.args[0].sort == SInt {
				weak = append(weak, Le(d.args[0], d.args[1]), Le(d.args[1], d.args[0]))
			}
		}
		for wi, wt := range weak {
			wt := wt
			add(fmt.Sprintf("bound%d.%d", ci, wi), func(st *State, pv []Val) *Term {
				m := map[*Term]*Term{}
				for i, v := range pv {
					for j, t := range v.ts {
						m[discPV[i].ts[j]] = t
					}
				}
				return Subst(wt, m)
			})
		}
	}
	// nothing outside the unit's modifies clauses changes
	if x.unit.c != nil && x.unit.fn != nil && !x.unit.c.modAny && !mod.epoch {
		for _, k := range mod.keys() {
			var rs []*Term
			all := mod.any[k]
			for r := range mod.refs[k] {
				if r == freshMark {
					continue
				}
				if stripConst(r).alloc {
					continue
				}
				rs = append(rs, r)
			}
			if !all && len(rs) == 0 {
				continue
			}
			sort.Slice(rs, func(i, j int) bool { return rs[i].id < rs[j].id })
			if f := x.frameInv(k, rs, all); f != nil {
				add("frame "+k, f)
			}
		}
	}
	// user templates: clauses of the unit's contract and of the contract of the inlined function
	var cls []*clause
	if x.unit.c != nil {
		cls = append(cls, x.unit.c.loops...)
	}
	if _, c := x.w.contractOf(fr.fn); c != nil && c != x.unit.c {
		cls = append(cls, c.loops...)
	}
	for _, cl := range cls {
		cl := cl
		if !cl.forProp(x.prop) {
			continue
		}
		ms := map[string]bool{}
		metasIn(cl.e, ms)
		var names []string
		for n := range ms {
			names = append(names, n)
		}
		sort.Strings(names)
		var assign func(k int, cur map[string]subject)
		assign = func(k int, cur map[string]subject) {
			if k == len(names) {
				bind := map[string]subject{}
				lab := cl.label
				for n, s := range cur {
					bind[n] = s
				}
				for _, n := range names {
					lab += " " + n + "=" + bind[n].name
				}
				f := func(s *State, pv []Val) *Term {
					sc := x.unit.ctx(x, s)
					sc.loopSt = pre
					sc.metas = map[string]func(*State) SVal{}
					for n, sb := range bind {
						sb := sb
						sc.metas[n] = func(ss *State) SVal {
							if ss == pre {
								return SVal{v: sb.get(pre, init), t: sb.typ}
							}
							return SVal{v: sb.get(s, pv), t: sb.typ}
						}
					}
					t, err := sc.tryBool(cl.e)
					if err != nil {
						if os.Getenv("GOVC_LOOPS") != "" {
							fmt.Fprintf(os.Stderr, "template %s: %v\n", lab, err)
						}
						return nil
					}
					return t
				}
				out = append(out, &invCand{label: lab, f: f, user: true})
				return
			}
			cls := metaClass(names[k])
			for _, s := range subs {
				if !classFits(s, cls) {
					continue
				}
				dup := false
				for _, o := range cur {
					if o.name == s.name {
						dup = true
					}
				}
				if dup {
					continue
				}
				cur[names[k]] = s
				assign(k+1, cur)
				delete(cur, names[k])
			}
		}
		assign(0, map[string]subject{})
	}
	return
}
