package main

import (
	"context"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- pool of interactive solvers

type z3pool struct {
	mu    sync.Mutex
	free  chan *z3proc
	cache map[string]bool
	hits  int
}

func newPool(n int) *z3pool {
	p := &z3pool{free: make(chan *z3proc, n), cache: map[string]bool{}}
	for i := 0; i < n; i++ {
		p.free <- startZ3()
	}
	return p
}

func (p *z3pool) close() {
	for i := 0; i < cap(p.free); i++ {
		z := <-p.free
		z.close()
	}
}

func (p *z3pool) ask(q string, ms int) bool {
	p.mu.Lock()
	r, ok := p.cache[q]
	if ok {
		p.hits++
	}
	p.mu.Unlock()
	if ok {
		return r
	}
	z := <-p.free
	t0 := time.Now()
	v := z.check(q, ms)
	if os.Getenv("GOVC_PROF") != "" {
		prof(fmt.Sprintf("ask%d %s", ms, v), time.Since(t0))
	}
	p.free <- z
	r = v == "unsat"
	p.mu.Lock()
	p.cache[q] = r
	p.mu.Unlock()
	return r
}

// askAll gives a question the interactive solver could not settle to the other solvers of the portfolio.
func (p *z3pool) askAll(q string, ms int) bool {
	p.mu.Lock()
	r, ok := p.cache["all "+q]
	p.mu.Unlock()
	if ok {
		return r
	}
	z := <-p.free
	t0 := time.Now()
	defer func() {
		p.free <- z
		if os.Getenv("GOVC_PROF") != "" {
			prof(fmt.Sprintf("all%d %v", ms, r), time.Since(t0))
		}
	}()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solverRes, 2)
	for _, sc := range solvers[1:3] {
		go func(sc solverCfg) { ch <- runSolver(ctx, sc, q, ms, false) }(sc)
	}
	for i := 0; i < 2; i++ {
		v := (<-ch).verdict
		if v == "unsat" {
			r = true
		}
		if v != "unknown" {
			break
		}
	}
	p.mu.Lock()
	p.cache["all "+q] = r
	p.mu.Unlock()
	return r
}

// valid reports that facts entail goal (false when unknown).
func (p *z3pool) valid(facts []*Term, goal *Term, ms int) bool {
	if goal == TTrue {
		return true
	}
	return p.ask(buildQuery(facts, goal), ms)
}

func (p *z3pool) validMany(facts []*Term, goals []*Term, ms, first, last int, hard func(i int) bool) []bool {
	out := make([]bool, len(goals))
	var wg sync.WaitGroup
	for i, g := range goals {
		if g == TTrue {
			out[i] = true
			continue
		}
		if g == TFalse {
			continue
		}
		q := buildQuery(facts, g)
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			m := ms
			if hard != nil && hard(i) {
				m = first
			}
			out[i] = p.ask(q, m) || hard != nil && hard(i) && p.askAll(q, last)
		}(i)
	}
	wg.Wait()
	return out
}

// ---------------------------------------------------------------- units

type Unit struct {
	name  string
	key   string
	c     *Contract
	fn    *ssa.Function
	pkg   *types.Package
	entry *State
	names map[string]SVal
	used  map[string]bool

	allowed map[string][]region
}

type UnitResult struct {
	unit    string
	file    string
	obls    []*Obligation
	trivial int
	exits   int
	paths   int
	used    []string
	dur     time.Duration
	missing bool
	note    string
}

func (u *Unit) ctx(x *Exec, s *State) *SpecCtx {
	n := make(map[string]SVal, len(u.names))
	for k, v := range u.names {
		n[k] = v
	}
	return &SpecCtx{x: x, st: s, old: u.entry, names: n, pkg: u.pkg}
}

func (u *Unit) panicCond(x *Exec) *Term {
	sc := u.ctx(x, u.entry)
	return x.evalClause(sc, u.c.panics, u.name+" panics")
}

func newExec(w *World, pool *z3pool, u *Unit, prop string) *Exec {
	return &Exec{failed: map[string]bool{}, w: w, unit: u, prop: prop, pool: pool, maxStep: 400000, budget: 240 * time.Second, start: time.Now(),
		inl: map[*ssa.Function]int{}, noted: map[string]bool{}, feas: map[string]bool{}, invC: map[string][]*invCand{}, droppedInv: map[string]map[string]bool{}}
}

func newState() *State {
	return &State{env: map[ekey]Val{}, cells: map[*cellID]Val{}, heap: map[string]*Term{}, epoch: "0", fset: map[*Term]bool{},
		held: map[string]lockInfo{}, locked: map[string]bool{}, defers: map[int][]deferred{}, loops: map[loopActive]*loopCtx{}}
}

// verifyUnit generates the obligations of one function under contract.
func verifyUnit(w *World, pool *z3pool, key, prop string) *UnitResult {
	c := w.db.contracts[key]
	fn := w.funcs[key]
	res := &UnitResult{unit: key, file: c.file}
	t0 := time.Now()
	defer func() { res.dur = time.Since(t0) }()
	if fn == nil || len(fn.Blocks) == 0 {
		res.missing = true
		res.note = "no function " + key + " in the current source"
		return res
	}
	u := &Unit{name: key, key: key, c: c, fn: fn, pkg: w.fnPkg(fn), used: map[string]bool{}, names: map[string]SVal{}}
	x := newExec(w, pool, u, prop)
	if x.initUnit = strings.Contains(key, ".init@"); x.initUnit {
		x.maxStep = 20000000
	}
	st := newState()
	x.guard(st, "", func() { x.runUnit(st, res) })
	res.obls = x.obls
	res.trivial = x.trivial
	res.exits = x.exits
	for k := range u.used {
		res.used = append(res.used, k)
	}
	sort.Strings(res.used)
	return res
}

func (x *Exec) baseState(st *State) {
	top0 := NamedVar("top0", SInt)
	st.top = top0
	st.assume(Le(IntBig(pow2(42)), top0))
	x.globalFacts(st)
}

// establishes: an initialisation function is verified as a unit of its own.
func (w *World) establishes(f *ssa.Function) bool {
	for k, c := range w.db.contracts {
		if strings.Contains(k, ".init@") && w.funcs[k] == f && !c.trusted {
			return true
		}
	}
	return false
}

func (x *Exec) globalFacts(st *State) {
	var gs []*ssa.Global
	for g := range x.w.sentinel {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return globalKey(gs[i]) < globalKey(gs[j]) })
	for _, g := range gs {
		k := globalKey(g)
		regHeap(k, SInt, leaves(deref(g.Type()))[0])
		st.heap[k] = Int64(int64(1<<41) + 65536*int64(x.w.sentinelID(g)))
	}
	for _, f := range x.w.initFacts(x, x.unit.pkg) {
		st.assume(f)
	}
	if !x.initUnit {
		for _, gi := range x.w.db.ginvs {
			if x.unit.pkg != nil && gi.pkg == x.unit.pkg.Name() && (x.unit.fn == nil || x.usesGlobal(x.unit.fn, gi.global, map[*ssa.Function]bool{})) {
				sc := &SpecCtx{x: x, st: st, old: st, names: map[string]SVal{}, pkg: x.unit.pkg}
				f := x.w.funcs[gi.pkg+".init@"+gi.global]
				if f == nil || !x.w.establishes(f) {
					x.obls = append(x.obls, &Obligation{name: x.unit.name + "/globalinv:" + gi.name, unit: x.unit.name, kind: "globalinv", goal: TFalse, verdict: "failed", detail: "variable " + gi.global + " is not written by exactly one initialisation function under contract"})
					continue
				}
				st.assume(x.evalClause(sc, gi.e, "globalinv "+gi.name))
			}
		}
	}
	for _, ax := range x.w.db.axioms {
		if ax.loc && (x.unit.pkg == nil || ax.pkg != x.unit.pkg.Name() || x.unit.fn == nil || !mentions(x.unit.fn, ax.fn)) {
			continue
		}
		sc := &SpecCtx{x: x, st: st, old: st, names: map[string]SVal{}, pkg: x.unit.pkg}
		st.assume(x.evalClause(sc, ax.e, "axiom"))
	}
	if x.unit.c == nil {
		return
	}
	for _, n := range x.unit.c.uses {
		var lm *lemma
		for _, l := range x.w.db.lemmas {
			if l.name == n {
				lm = l
			}
		}
		if lm == nil {
			panic(specErr{"uses " + n + ": no such lemma"})
		}
		if !hasProp(lm.props, x.prop) {
			x.note("lemma " + n + " (proved by the check of another property)")
		}
		sc := &SpecCtx{x: x, st: st, old: st, names: map[string]SVal{}, pkg: x.unit.pkg}
		var bv []*Term
		for _, p := range lm.bind {
			b := BoundVar("lm_"+p, SInt)
			bv = append(bv, b)
			sc.names[p] = mathv(b)
		}
		body := sc.boolOf(lm.e)
		st.assume(Forall(bv, body, patternsFor(bv, body)...))
	}
	for _, n := range x.unit.c.fold {
		d := x.w.db.defs[n]
		if d == nil || !d.opaque {
			panic(specErr{"fold " + n + ": not an opaque definition"})
		}
		sc := &SpecCtx{x: x, st: st, old: st, names: map[string]SVal{}, pkg: x.unit.pkg}
		var bv []*Term
		for _, p := range d.params {
			b := BoundVar("fold_"+p, SInt)
			bv = append(bv, b)
			sc.names[p] = mathv(b)
		}
		body := sc.eval(d.body)
		app := App("def:"+n, body.v.t().sort, bv...)
		st.assume(Forall(bv, Eq(app, body.v.t()), []*Term{app}))
	}
}

// mentions: the function uses the named function of its package as a value.
func mentions(f *ssa.Function, name string) bool {
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Function); ok && g.Name() == name {
					return true
				}
			}
		}
	}
	return false
}

// usesGlobal: the function, or one it calls in the same package, refers to a package variable.
func (x *Exec) usesGlobal(f *ssa.Function, name string, seen map[*ssa.Function]bool) bool {
	if f == nil || seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				if g, ok := (*op).(*ssa.Global); ok && g.Name() == name && g.Pkg.Pkg == x.unit.pkg {
					return true
				}
				if h, ok := (*op).(*ssa.Function); ok && h.Pkg != nil && h.Pkg.Pkg == x.unit.pkg && x.usesGlobal(h, name, seen) {
					return true
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if x.usesGlobal(a, name, seen) {
			return true
		}
	}
	return false
}

// fixedBy finds fn(name) == constant among the conjuncts of a precondition.
func fixedBy(e *Expr, fn, name string) *Term {
	if e.op != "bin" {
		return nil
	}
	if e.name == "&&" {
		if t := fixedBy(e.args[0], fn, name); t != nil {
			return t
		}
		return fixedBy(e.args[1], fn, name)
	}
	if e.name == "==" && e.args[1].op == "int" && e.args[0].op == "call" && e.args[0].name == fn && len(e.args[0].args) == 1 && e.args[0].args[0].op == "ident" && e.args[0].args[0].name == name {
		return IntBig(e.args[1].ival)
	}
	return nil
}

func (x *Exec) runUnit(st *State, res *UnitResult) {
	u, c, fn := x.unit, x.unit.c, x.unit.fn
	x.baseState(st)
	if fn.Signature.Recv() == nil && len(c.params) == 0 || true {
		for i, p := range c.params {
			_ = i
			_ = p
		}
	}
	fr := x.newFrame(fn, nil)
	for i, p := range fn.Params {
		v := x.freshVal(st, "arg_"+p.Name(), p.Type())
		nm := p.Name()
		if i < len(c.params) {
			nm = c.params[i]
		}
		if needNonNil(p.Type()) && !c.nilable[nm] {
			st.assume(Ne(v.ts[0], Int64(0)))
		}
		if _, ok := core(p.Type()).(*types.Slice); ok {
			// preconditions off(p) == 0 and len(p) == N fix the component itself
			for _, cl := range c.requires {
				if n := fixedBy(cl.e, "off", nm); n != nil {
					v.ts[1] = n
				}
				if n := fixedBy(cl.e, "len", nm); n != nil {
					v.ts[2] = n
				}
			}
		}
		x.set(st, fr, p, v)
		u.names[nm] = SVal{v: v, t: p.Type()}
	}
	for _, f := range fn.FreeVars {
		t := deref(f.Type())
		x.allocs++
		cell := &cellID{name: f.Name(), typ: t, n: x.allocs}
		v := x.freshVal(st, "free_"+f.Name(), t)
		if needNonNil(t) && !c.nilable[f.Name()] {
			st.assume(Ne(v.ts[0], Int64(0)))
		}
		st.cells[cell] = v
		x.set(st, fr, f, Val{ts: []*Term{x.cellTerm(cell)}, loc: &Loc{kind: lCell, cell: cell, typ: t}})
		u.names[f.Name()] = SVal{v: v, t: t}
	}
	u.entry = st
	sc := u.ctx(x, st)
	for _, cl := range c.requires {
		if cl.forProp(x.prop) {
			st.assume(x.evalClause(sc, cl.e, u.name+" requires"))
		}
	}
	for _, h := range c.holds {
		st.held[x.lockOf(sc, h)] = lockInfo{write: true}
		st.locked[x.lockOf(sc, h)] = true
	}
	u.entry = st.clone()
	if err := checkDefines(c.defines); err != nil {
		x.bail("%v", err)
	}
	for _, e := range c.unfolds {
		ms := map[string]bool{}
		if metasIn(e, ms); len(ms) == 0 {
			x.unfold(st, e, nil)
		}
	}
	if x.pool.valid(st.facts, TFalse, 2000) {
		x.obls = append(x.obls, &Obligation{name: u.name + "/vacuous:requires", unit: u.name, kind: "vacuous", facts: st.facts, goal: TFalse, verdict: "failed", detail: "the preconditions are contradictory"})
		return
	}
	live := false
	fr.ret = func(s *State, v Val) {
		x.exits++
		if !live && x.exits < 40 && !s.dead() {
			live = !x.pool.valid(s.facts, TFalse, 500)
		}
		x.atReturn(s, v)
	}
	x.runFrom(st, fr, fn.Blocks[0], 0)
	if x.exits == 0 && !c.noret {
		x.obls = append(x.obls, &Obligation{name: u.name + "/vacuous:noexit", unit: u.name, kind: "vacuous", facts: u.entry.facts, goal: TFalse, verdict: "failed", detail: "no path returns"})
	} else if !live && !c.noret {
		x.obls = append(x.obls, &Obligation{name: u.name + "/vacuous:deadexit", unit: u.name, kind: "vacuous", facts: u.entry.facts, goal: TFalse, verdict: "failed", detail: "every returning path is contradictory"})
	}
}

// unfold assumes the defining equations of recursive definitions at the arguments given by unfold clauses.
func (x *Exec) unfold(st *State, e *Expr, metas map[string]func(*State) SVal) {
	u := x.unit
	var d *recDef
	for _, z := range u.c.defines {
		if z.name == e.name {
			d = z
		}
	}
	if d == nil || len(e.args) != 1+len(d.more) {
		x.bail("unfold %s: not a definition of this contract", e)
	}
	sc := u.ctx(x, st)
	sc.metas = metas
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); !ok {
				panic(r)
			}
		}
	}()
	at := sc.intOf(e.args[0])
	lhs := sc.intOf(e)
	n := u.ctx(x, u.entry).sub()
	n.names[d.bind] = mathv(at)
	for i, m := range d.more {
		n.names[m] = mathv(sc.intOf(e.args[1+i]))
	}
	st.assume(Eq(lhs, Ite(Le(at, Int64(0)), n.intOf(d.base), n.intOf(d.step))))
}

func (x *Exec) atReturn(st *State, v Val) {
	u, c := x.unit, x.unit.c
	sc := u.ctx(x, st)
	bindResults(sc, c, v, u.fn.Signature.Results())
	x.ghostSets(st, sc, c)
	for _, o := range st.newObjs {
		x.checkNewObj(st, o)
	}
	if c.panics != nil && !c.mayPanic {
		x.oblige(st, "panic", "does not return where it must panic", Not(u.panicCond(x)), u.fn.Pos())
	}
	sc.goal = true
	for _, cl := range c.ensures {
		if !cl.forProp(x.prop) {
			continue
		}
		if cl.assumed {
			x.note("assumed of the result of " + u.name + ", not checked: " + cl.label)
			continue
		}
		g := x.evalClause(sc, cl.e, u.name+" ensures "+cl.label)
		if x.unit.c.named != "" {
			// each postcondition on its own: the others only distract the solvers
			x.obligeEach(st.clone(), "post", cl.label, g)
			continue
		}
		x.obligeEach(st, "post", cl.label, g)
	}
	if x.initUnit {
		for _, gi := range x.w.db.ginvs {
			if gi.pkg == u.pkg.Name() && x.w.funcs[gi.pkg+".init@"+gi.global] == u.fn {
				x.obligeEach(st, "globalinv", gi.name, x.evalClause(sc, gi.e, "globalinv "+gi.name))
			}
		}
	}
	sc.goal = false
	same := len(st.held) == len(u.entry.held)
	for k := range u.entry.held {
		if _, ok := st.held[k]; !ok {
			same = false
		}
	}
	x.oblige(st, "lock", "locks released at return", BoolT(same), u.fn.Pos())
	if !c.modAny {
		x.frameObligations(st)
	}
}

// obligeEach splits a conjunction so that each part is discharged on its own.
func (x *Exec) obligeEach(st *State, kind, label string, g *Term) {
	if g.op == "and" {
		for _, a := range g.args {
			if x.unit.c != nil && x.unit.c.named != "" {
				x.obligeEach(st.clone(), kind, label, a)
				continue
			}
			x.obligeEach(st, kind, label, a)
		}
		return
	}
	x.oblige(st, kind, label, g, x.unit.fn.Pos())
}

type newObj struct {
	ref *Term
	typ types.Type
}

// checkNewObj: fields declared non-nil are set in every object built here.
func (x *Exec) checkNewObj(st *State, o newObj) {
	s := structOf(o.typ)
	if s == nil {
		return
	}
	for i := 0; i < s.NumFields(); i++ {
		f := s.Field(i)
		n := structKey(o.typ) + "." + f.Name()
		if isAgg(f.Type()) {
			x.checkNewObj(st, newObj{Add(o.ref, Int64(slotOf(s, i))), f.Type()})
			continue
		}
		if !(x.w.db.nonnil[n] || x.w.db.nonnil[stripInst(n)]) {
			continue
		}
		l := leaves(f.Type())[0]
		k, so := fieldHeap(o.typ, f.Name(), l)
		regHeap(k, so, l)
		x.oblige(st, "nonnil", n+" of new object", Ne(Select(st.get(k), o.ref), Int64(0)), x.unit.fn.Pos())
	}
}

// allowedRegions are the regions named by the unit's modifies clauses, in its entry state.
func (x *Exec) allowedRegions() map[string][]region {
	u := x.unit
	if u.allowed == nil {
		u.allowed = map[string][]region{}
		sc := u.ctx(x, u.entry)
		for _, m := range u.c.modifies {
			for _, r := range x.regions(sc, m) {
				u.allowed[r.key] = append(u.allowed[r.key], r)
			}
		}
	}
	return u.allowed
}

// frameInv states that a loop has so far changed nothing of heap k outside the unit's modifies clauses.
func (x *Exec) frameInv(k string, refs []*Term, all bool) func(s *State, pv []Val) *Term {
	u := x.unit
	rs := x.allowedRegions()[k]
	so := heapSorts[k]
	if so == nil || so.elem == nil {
		return nil
	}
	idx := so.elem.elem != nil
	for _, q := range rs {
		if q.ref == nil {
			return nil
		}
	}
	for _, q := range rs {
		if q.lo != nil {
			idx = idx && true
		}
	}
	was := u.entry.get(k)
	one := func(now, r *Term, bvs []*Term, extra *Term) *Term {
		var esc []*Term
		if extra != nil {
			esc = append(esc, extra)
		}
		a, b := Select(now, r), Select(was, r)
		var pat []*Term
		if idx {
			j := BoundVar("fj", SInt)
			bvs = append(bvs, j)
			a, b = Select(a, j), Select(b, j)
			for _, q := range rs {
				e := Eq(r, q.ref)
				if q.lo != nil {
					e = And(e, Le(q.lo, j), Lt(j, q.hi))
				}
				esc = append(esc, e)
			}
		} else {
			for _, q := range rs {
				esc = append(esc, Eq(r, q.ref))
			}
		}
		esc = append(esc, Eq(a, b))
		body := Or(esc...)
		if body == TTrue || len(bvs) == 0 {
			return body
		}
		if a.op == "select" && cleanPat(a) {
			pat = []*Term{a}
			return Forall(bvs, body, pat)
		}
		return Forall(bvs, body)
	}
	return func(s *State, pv []Val) *Term {
		now := s.get(k)
		if all {
			r := BoundVar("fr", SInt)
			return one(now, r, []*Term{r}, Lt(u.entry.top, r))
		}
		var out []*Term
		for _, r := range refs {
			out = append(out, one(now, r, nil, nil))
		}
		return And(out...)
	}
}

func (x *Exec) frameObligations(st *State) {
	u := x.unit
	allowed := x.allowedRegions()
	if st.epoch != u.entry.epoch {
		x.oblige(st, "frame", "everything", TFalse, u.fn.Pos())
		return
	}
	var keys []string
	for k := range st.heap {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		now, was := st.heap[k], u.entry.get(k)
		if now == was || k == "NOW" {
			continue
		}
		rs := allowed[k]
		whole := false
		for _, r := range rs {
			if r.ref == nil {
				whole = true
			}
		}
		if whole {
			continue
		}
		if now.sort.elem == nil {
			x.oblige(st, "frame", k, Eq(now, was), u.fn.Pos())
			continue
		}
		r := Fresh("frame_ref", SInt)
		idx := false
		for _, q := range rs {
			if q.lo != nil {
				idx = true
			}
		}
		var esc []*Term
		esc = append(esc, Lt(u.entry.top, r))
		a, b := Select(now, r), Select(was, r)
		if idx || a.sort.elem != nil {
			j := Fresh("frame_idx", SInt)
			if a.sort.elem != nil {
				a, b = Select(a, j), Select(b, j)
			}
			for _, q := range rs {
				e := Eq(r, q.ref)
				if q.lo != nil {
					e = And(e, Le(q.lo, j), Lt(j, q.hi))
				}
				esc = append(esc, e)
			}
		} else {
			for _, q := range rs {
				esc = append(esc, Eq(r, q.ref))
			}
		}
		esc = append(esc, Eq(a, b))
		x.oblige(st, "frame", k, Or(esc...), u.fn.Pos())
	}
}

// ---------------------------------------------------------------- lemmas

func verifyLemma(w *World, pool *z3pool, lm *lemma, prop string) *UnitResult {
	res := &UnitResult{unit: "lemma." + lm.name}
	t0 := time.Now()
	defer func() { res.dur = time.Since(t0) }()
	u := &Unit{name: "lemma." + lm.name, pkg: w.pkgByName[lm.pkg], used: map[string]bool{}, names: map[string]SVal{}}
	x := newExec(w, pool, u, prop)
	st := newState()
	x.guard(st, "", func() {
		x.baseState(st)
		sc := u.ctx(x, st)
		for _, b := range lm.bind {
			sc.names[b] = mathv(Fresh("lem_"+b, SInt))
		}
		u.entry = st
		sc.old = st
		sc.goal = true
		g := x.evalClause(sc, lm.e, u.name)
		if g.op == "=>" {
			// vacuity: the premise must be satisfiable
			if x.pool.valid(append(st.facts[:len(st.facts):len(st.facts)], g.args[0]), TFalse, 2000) {
				x.oblige(st, "vacuous", "premise", TFalse, 0)
			}
		}
		x.obls = append(x.obls, &Obligation{name: u.name, unit: u.name, kind: "lemma", facts: st.facts, goal: g})
		x.exits = 1
	})
	res.obls, res.trivial, res.exits = x.obls, x.trivial, 1
	return res
}

// ---------------------------------------------------------------- package initialisation

var initCache = map[*types.Package][]*Term{}

// initFacts: values of never-reassigned tables (arrays, maps, slices) after package initialisation,
// obtained by executing the package's own init function.
func (w *World) initFacts(x *Exec, pkg *types.Package) (out []*Term) {
	if pkg == nil {
		return nil
	}
	if f, ok := initCache[pkg]; ok {
		return f
	}
	initCache[pkg] = nil
	p := w.prog.Package(pkg)
	if p == nil {
		return nil
	}
	var gs []*ssa.Global
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok && w.readonly[g] && !w.sentinel[g] {
			switch core(deref(g.Type())).(type) {
			case *types.Array, *types.Map:
				gs = append(gs, g)
			}
		}
	}
	if len(gs) == 0 {
		return nil
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].Name() < gs[j].Name() })
	fn := p.Func("init")
	u := &Unit{name: pkg.Name() + ".init", pkg: pkg, used: map[string]bool{}, names: map[string]SVal{}}
	ix := newExec(w, x.pool, u, "")
	ix.quiet = 1
	st := newState()
	st.epoch = "init"
	st.top = IntBig(pow2(41))
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, agg := core(deref(g.Type())).(*types.Array); agg || !isAgg(deref(g.Type())) {
				ix.guard(st, "", func() { ix.store(st, ix.globalAddr(g), deref(g.Type()), zeroVal(deref(g.Type()))) })
			}
		}
	}
	fr := ix.newFrame(fn, nil)
	ok := false
	fr.ret = func(s *State, v Val) {
		if ok {
			return
		}
		ok = true
		sub := map[*Term]*Term{}
		ren := func(t *Term, name string) *Term {
			if t.op == "var" && t.alloc {
				n := NamedVar("init:"+name, SInt)
				n.rng, n.lo = true, bigOne
				sub[t] = n
				return n
			}
			return t
		}
		end := newState()
		for _, g := range gs {
			t := deref(g.Type())
			switch u := core(t).(type) {
			case *types.Array:
				ref := w.globalRef(g)
				for _, l := range leaves(u.Elem()) {
					k, so := elemHeap(u.Elem(), l)
					regHeap(k, so, l)
					out = append(out, Eq(Select(end.get(k), ref), Select(s.get(k), ref)))
				}
			case *types.Map:
				k := globalKey(g)
				m := s.get(k)
				m2 := ren(m, g.Name())
				out = append(out, Eq(end.get(k), m2))
				d, vs, ln := mapKeys(u)
				for _, hk := range append(append([]string{}, vs...), d, ln) {
					if _, ok := heapSorts[hk]; ok {
						out = append(out, Eq(Select(end.get(hk), m2), Select(s.get(hk), m)))
					}
				}
				out = append(out, Le(m2, IntBig(pow2(42))))
			}
		}
		for i := range out {
			out[i] = Subst(out[i], sub)
		}
	}
	ix.inInit = true
	ix.guard(st, "", func() { ix.runFrom(st, fr, fn.Blocks[0], 0) })
	if os.Getenv("GOVC_DEBUG") != "" && !ok {
		fmt.Fprintln(os.Stderr, "init of", pkg.Path(), "not executed:", len(ix.obls))
		for _, o := range ix.obls {
			fmt.Fprintln(os.Stderr, "  ", o.name, o.detail)
		}
	}
	initCache[pkg] = out
	return out
}

func (w *World) sentinelID(g *ssa.Global) int {
	var names []string
	for o := range w.sentinel {
		names = append(names, globalKey(o))
	}
	sort.Strings(names)
	for i, n := range names {
		if n == globalKey(g) {
			return i + 1
		}
	}
	return 0
}

func trimUnit(s string) string { return strings.TrimPrefix(s, "lemma.") }

var profMu sync.Mutex
var profN = map[string]int{}
var profT = map[string]time.Duration{}

// prof counts solver questions during the generation of obligations (GOVC_PROF).
func prof(k string, d time.Duration) {
	profMu.Lock()
	profN[k]++
	profT[k] += d
	profMu.Unlock()
}

func profPrint() {
	for k, n := range profN {
		fmt.Fprintf(os.Stderr, "prof %-20s %6d %8.1fs\n", k, n, profT[k].Seconds())
	}
}
