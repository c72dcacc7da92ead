package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Obligation struct {
	name  string // unit/kind:label, free of line numbers
	unit  string
	kind  string
	label string
	facts []*Term
	goal  *Term
	pos   string
	trail []string
	// results
	verdict string
	solver  string
	detail  string
	model   string
	dur     time.Duration
	query   string
	quick   int // first attempt, ms (0: the default)
}

type Frame struct {
	id     int
	fn     *ssa.Function
	parent *Frame
	ret    func(st *State, v Val)
	depth  int
	loops  map[*ssa.BasicBlock]*loopInfo
	args   []Val
	tsub   map[*types.TypeParam]types.Type
}

type Exec struct {
	w          *World
	unit       *Unit
	obls       []*Obligation
	trivial    int
	quiet      int
	recs       []*recorder
	restr      []*loopCtx
	frames     int
	allocs     int
	paths      int
	maxPath    int
	steps      int
	maxStep    int
	exits      int
	start      time.Time
	budget     time.Duration
	proved     map[proveKey]bool
	prop       string
	inl        map[*ssa.Function]int
	noted      map[string]bool
	pool       *z3pool
	houd       int
	feas       map[string]bool
	invC       map[string][]*invCand
	callSt     []*ssa.Function
	inInit     bool
	initUnit   bool // the unit is a package initialisation function
	droppedInv map[string]map[string]bool
	quants     map[*Term]bool
	failed     map[string]bool
}

type unsupported struct{ msg string }

func (x *Exec) bail(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

func (x *Exec) note(s string) {
	x.w.noteTrusted(s)
}

func (x *Exec) oblige(st *State, kind, label string, goal *Term, pos token.Pos) {
	if st.dead() {
		return
	}
	if goal == TTrue || st.fset[goal] {
		if x.quiet == 0 {
			x.trivial++
		}
		return
	}
	if x.quiet == 0 {
		g := goal
		if x.unit.c != nil && x.unit.c.panics != nil && x.unit.entry != nil && (kind == "bounds" || kind == "nil" || kind == "div") {
			g = Or(goal, x.unit.panicCond(x))
		}
		o := &Obligation{name: x.unit.name + "/" + kind, unit: x.unit.name, kind: kind, label: label, facts: st.facts, goal: g, trail: st.trail, pos: x.w.pos(pos)}
		if x.unit.c != nil && x.unit.c.named != "" {
			o.quick = 1200
		}
		if label != "" {
			o.name += ":" + label
		}
		x.obls = append(x.obls, o)
	}
	st.assume(goal)
}

// proves tries to show a goal on the spot (used for wrap elimination and similar).
func (x *Exec) proves(st *State, goal *Term, ms int) bool {
	if goal == TTrue || st.fset[goal] {
		return true
	}
	if goal == TFalse {
		return false
	}
	k := proveKey{goal.id, ms, len(st.facts), 14695981039346656037}
	for _, f := range st.facts {
		k.h = (k.h ^ uint64(f.id)) * 1099511628211
	}
	if r, ok := x.proved[k]; ok {
		return r
	}
	r := x.pool.valid(x.quickFacts(st), goal, ms)
	if x.proved == nil {
		x.proved = map[proveKey]bool{}
	}
	x.proved[k] = r
	return r
}

type proveKey struct {
	goal, ms, n int
	h           uint64
}

func (x *Exec) feasible(st *State, c *Term) bool {
	if c == TTrue {
		return true
	}
	if c == TFalse || st.fset[Not(c)] {
		return false
	}
	if st.fset[c] {
		return true
	}
	return !x.pool.valid(x.quickFacts(st), Not(c), 150)
}

// quickFacts are the facts for questions on the spot: those without quantifiers where a unit has many with them.
func (x *Exec) quickFacts(st *State) []*Term {
	if x.unit.c == nil || x.unit.c.named == "" {
		return st.facts
	}
	if x.quants == nil {
		x.quants = map[*Term]bool{}
	}
	return ground(st.facts, x.quants)
}

// ---------------------------------------------------------------- values

func (x *Exec) constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch u := core(t).(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			if b, ok := constant.Val(constant.ToInt(c.Value)).(*big.Int); ok {
				return one(IntBig(b))
			}
			i, _ := constant.Int64Val(constant.ToInt(c.Value))
			return one(Int64(i))
		case u.Info()&types.IsBoolean != 0:
			return one(BoolT(constant.BoolVal(c.Value)))
		case u.Info()&types.IsString != 0:
			return one(x.w.strConst(constant.StringVal(c.Value)))
		case u.Info()&types.IsFloat != 0:
			return one(realConst(c.Value))
		}
	}
	if _, ok := t.(*types.TypeParam); ok {
		if b, ok := constant.Val(constant.ToInt(c.Value)).(*big.Int); ok {
			return one(IntBig(b))
		}
		if i, ok := constant.Int64Val(constant.ToInt(c.Value)); ok {
			return one(Int64(i))
		}
	}
	x.bail("constant %s", c)
	return Val{}
}

func realConst(v constant.Value) *Term {
	r := constant.ToFloat(v)
	n, d := constant.Num(r), constant.Denom(r)
	f := func(v constant.Value) string {
		s := v.ExactString()
		if strings.HasPrefix(s, "-") {
			return "(- " + s[1:] + ".0)"
		}
		return s + ".0"
	}
	if n.Kind() != constant.Int || d.Kind() != constant.Int {
		return Fresh("real", SReal)
	}
	if d.ExactString() == "1" {
		return RealConst(f(n))
	}
	return RealConst("(/ " + f(n) + " " + f(d) + ")")
}

func (x *Exec) val(st *State, fr *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return one(fnTerm(c))
	case *ssa.Builtin:
		return Val{}
	case *ssa.Global:
		return x.globalAddr(c)
	}
	r, ok := st.env[ekey{fr.id, v}]
	if !ok {
		x.bail("no value for %s in %s", v.Name(), fr.fn)
	}
	return r
}

func (x *Exec) globalAddr(g *ssa.Global) Val {
	t := deref(g.Type())
	if isAgg(t) {
		return one(x.w.globalRef(g))
	}
	return Val{ts: []*Term{x.w.globalRef(g)}, loc: &Loc{kind: lGlobal, key: globalKey(g), typ: t}}
}

func (x *Exec) set(st *State, fr *Frame, v ssa.Value, r Val) {
	st.env[ekey{fr.id, v}] = r
}

// ---------------------------------------------------------------- block execution

func (x *Exec) newFrame(fn *ssa.Function, parent *Frame) *Frame {
	x.frames++
	f := &Frame{id: x.frames, fn: fn, parent: parent}
	if parent != nil {
		f.depth = parent.depth + 1
	}
	f.loops = x.w.loopsOf(fn)
	return f
}

func (x *Exec) tooMuch() bool {
	return x.steps > x.maxStep || time.Since(x.start) > x.budget
}

// guard runs f; an unsupported construct or an internal failure becomes an undischarged obligation.
func (x *Exec) guard(st *State, where string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			var msg string
			if u, ok := r.(unsupported); ok {
				msg = u.msg
			} else {
				msg = fmt.Sprint("internal: ", r)
				if os.Getenv("GOVC_DEBUG") != "" {
					panic(r)
				}
			}
			if x.quiet > 0 && !x.inInit {
				return
			}
			x.obls = append(x.obls, &Obligation{name: x.unit.name + "/unsupported", unit: x.unit.name, kind: "unsupported", label: msg, facts: st.facts, goal: TFalse, verdict: "unsupported", detail: msg, trail: st.trail})
		}
	}()
	f()
}

// jump transfers control from block prev to block b.
func (x *Exec) jump(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	if n := len(x.restr); n > 0 {
		rc := x.restr[n-1]
		if rc.frame == fr.id && !rc.info.blocks[b] {
			rc.exitSeen = true
			return
		}
	}
	if li := fr.loops[b]; li != nil {
		act := loopActive{fr.id, b}
		if ctx := st.loops[act]; ctx != nil && li.blocks[prev] {
			if ctx.unroll > 0 {
				x.unrollStep(st, fr, b, prev, ctx)
				return
			}
			ctx.back(st, prev)
			return
		}
		x.enterLoop(st, fr, b, prev, li)
		return
	}
	x.phis(st, fr, b, prev)
	x.runFrom(st, fr, b, x.firstNonPhi(b))
}

func (x *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	for i, in := range b.Instrs {
		if _, ok := in.(*ssa.Phi); !ok {
			return i
		}
	}
	return len(b.Instrs)
}

func predIndex(b, prev *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == prev {
			return i
		}
	}
	return -1
}

func (x *Exec) phiVals(st *State, fr *Frame, b, prev *ssa.BasicBlock) []Val {
	k := predIndex(b, prev)
	var vs []Val
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		vs = append(vs, x.val(st, fr, p.Edges[k]))
	}
	return vs
}

func (x *Exec) phis(st *State, fr *Frame, b, prev *ssa.BasicBlock) {
	for i, v := range x.phiVals(st, fr, b, prev) {
		x.set(st, fr, b.Instrs[i].(*ssa.Phi), v)
	}
}

func (x *Exec) runFrom(st *State, fr *Frame, b *ssa.BasicBlock, idx int) {
	for i := idx; i < len(b.Instrs); i++ {
		x.steps++
		if st.dead() {
			return
		}
		if x.steps&1023 == 0 && x.tooMuch() {
			x.bail("execution budget exceeded")
		}
		in := b.Instrs[i]
		switch n := in.(type) {
		case *ssa.If:
			c := x.val(st, fr, n.Cond).t()
			if m := len(x.restr); m > 0 {
				if rc := x.restr[m-1]; rc.frame == fr.id {
					if !rc.info.blocks[b.Succs[0]] {
						rc.conds = append(rc.conds, Not(c))
					}
					if !rc.info.blocks[b.Succs[1]] {
						rc.conds = append(rc.conds, c)
					}
				}
			}
			x.branch(st, c, func(s *State) {
				x.jump(s, fr, b.Succs[0], b)
			}, func(s *State) {
				x.jump(s, fr, b.Succs[1], b)
			})
			return
		case *ssa.Jump:
			x.jump(st, fr, b.Succs[0], b)
			return
		case *ssa.Return:
			if m := len(x.restr); m > 0 && x.restr[m-1].frame == fr.id {
				x.restr[m-1].exitSeen = true
				return
			}
			var v Val
			for j, r := range n.Results {
				rv := x.val(st, fr, r)
				if len(n.Results) == 1 {
					v = rv
					break
				}
				_ = j
				v.ts = append(v.ts, rv.ts...)
			}
			fr.ret(st, v)
			return
		case *ssa.Panic:
			x.panicAt(st, "explicit", n.Pos(), fr)
			return
		case *ssa.Call:
			i := i
			x.call(st, fr, n, &n.Call, func(s *State, v Val) {
				x.set(s, fr, n, v)
				x.runFrom(s, fr, b, i+1)
			})
			return
		case *ssa.Defer:
			d := deferred{instr: n}
			if n.Call.IsInvoke() || n.Call.StaticCallee() == nil {
				if _, ok := n.Call.Value.(*ssa.Builtin); !ok {
					d.fv = x.val(st, fr, n.Call.Value)
				}
			} else if _, ok := n.Call.Value.(*ssa.MakeClosure); ok {
				d.fv = x.val(st, fr, n.Call.Value)
			}
			for _, a := range n.Call.Args {
				d.args = append(d.args, x.val(st, fr, a))
			}
			st.defers[fr.id] = append(st.defers[fr.id], d)
		case *ssa.RunDefers:
			i := i
			x.runDefers(st, fr, func(s *State) { x.runFrom(s, fr, b, i+1) })
			return
		case *ssa.Select:
			i := i
			x.selectInstr(st, fr, n, func(s *State) { x.runFrom(s, fr, b, i+1) })
			return
		default:
			if cont := x.instr(st, fr, in); cont != nil {
				i := i
				cont(func(s *State) { x.runFrom(s, fr, b, i+1) })
				return
			}
		}
	}
}

func (x *Exec) branch(st *State, c *Term, yes, no func(*State)) {
	switch {
	case c == TTrue:
		yes(st)
		return
	case c == TFalse:
		no(st)
		return
	}
	fy := x.feasible(st, c)
	fn := x.feasible(st, Not(c))
	if fy && fn {
		s2 := st.clone()
		st.assume(c)
		s2.assume(Not(c))
		if len(c.String()) < 160 {
			st.trail = append(st.trail, c.String())
			s2.trail = append(s2.trail, "not "+c.String())
		}
		x.guard(st, "", func() { yes(st) })
		x.guard(s2, "", func() { no(s2) })
		return
	}
	if fy {
		st.assume(c)
		yes(st)
		return
	}
	if fn {
		st.assume(Not(c))
		no(st)
	}
}

func (x *Exec) panicAt(st *State, why string, pos token.Pos, fr *Frame) {
	for i := len(x.restr) - 1; i >= 0; i-- {
		_ = i
	}
	if x.unit.c != nil && x.unit.c.panics != nil && x.unit.entry != nil {
		g := x.unit.panicCond(x)
		x.oblige(st, "panic", why, g, pos)
		return
	}
	x.oblige(st, "panic", why, TFalse, pos)
}

func (x *Exec) nilCheck(st *State, p *Term, what string, pos token.Pos) {
	if p.alloc || stripConst(p).alloc || p.isInt() && p.ival.Sign() != 0 {
		return
	}
	x.oblige(st, "nil", what, Ne(p, Int64(0)), pos)
}

func (x *Exec) runDefers(st *State, fr *Frame, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1]
	x.callArgs(st, fr, d.instr, &d.instr.Call, d.fv, d.args, func(s *State, v Val) {
		x.runDefers(s, fr, k)
	})
}

func (x *Exec) selectInstr(st *State, fr *Frame, n *ssa.Select, k func(*State)) {
	tup := n.Type().(*types.Tuple)
	cnt := len(n.States)
	lo := 0
	if !n.Blocking {
		lo = -1
	}
	for i := lo; i < cnt; i++ {
		s := st.clone()
		s.trail = append(s.trail, fmt.Sprintf("select#%d", i))
		if i < 0 {
			// the default case: no other case was ready
			for _, z := range n.States {
				if z.Dir == types.SendOnly {
					x.chanOp(s, fr, "nosend", z.Chan, nil, nil, n.Pos())
				} else {
					x.chanOp(s, fr, "norecv", z.Chan, nil, nil, n.Pos())
				}
			}
		}
		rok := Fresh("recvOk", SBool)
		var rvs []*Term
		// recv values
		j := 2
		for q, z := range n.States {
			if z.Dir == types.SendOnly {
				if q == i {
					sv := x.val(s, fr, z.Send)
					x.chanOp(s, fr, "send", z.Chan, &sv, z.Send.Type(), n.Pos())
				}
				continue
			}
			if q == i {
				rv := x.chanRecv(s, fr, z.Chan, n.Pos())
				rok = rv.ts[len(rv.ts)-1]
				rvs = append(rvs, rv.ts[:len(rv.ts)-1]...)
			} else {
				rvs = append(rvs, x.freshVal(s, "recv", tup.At(j).Type()).ts...)
			}
			j++
		}
		v := Val{ts: append([]*Term{Int64(int64(i)), rok}, rvs...)}
		x.set(s, fr, n, v)
		x.guard(s, "", func() { k(s) })
	}
}

// chanContract finds the contract of an operation (send, recv, nosend, norecv, close) on a channel: by the
// struct field the channel was loaded from ("T.field.recv", with the struct as first argument) or "chan.recv".
func (x *Exec) chanContract(op string, ch ssa.Value) (*Contract, ssa.Value) {
	for {
		if c, ok := ch.(*ssa.ChangeType); ok {
			ch = c.X
			continue
		}
		break
	}
	if u, ok := ch.(*ssa.UnOp); ok && u.Op == token.MUL {
		if fa, ok := u.X.(*ssa.FieldAddr); ok {
			t := deref(fa.X.Type())
			if st, ok := core(t).(*types.Struct); ok {
				k := shortName(stripInst(typeKey(t))) + "." + st.Field(fa.Field).Name() + "." + op
				if c := x.w.db.ifaces[k]; c != nil {
					return c, fa.X
				}
			}
		}
	}
	if cl, ok := ch.(*ssa.Call); ok && cl.Call.IsInvoke() {
		k := shortName(stripInst(typeKey(cl.Call.Value.Type()))) + "." + cl.Call.Method.Name() + "." + op
		if c := x.w.db.ifaces[k]; c != nil {
			return c, cl.Call.Value
		}
	}
	return x.w.db.ifaces["chan."+op], nil
}

func (x *Exec) chanOp(st *State, fr *Frame, op string, ch ssa.Value, send *Val, et types.Type, pos token.Pos) (rv Val) {
	c, owner := x.chanContract(op, ch)
	res := types.NewTuple()
	if op == "recv" {
		res = types.NewTuple(types.NewVar(0, nil, "v", et), types.NewVar(0, nil, "ok", types.Typ[types.Bool]))
	}
	if c == nil {
		x.note("channel operations are nondeterministic events; goroutine interleaving between them is not modelled")
		if op == "recv" {
			return x.freshVal(st, "recv", res)
		}
		return
	}
	x.note("channel contract " + c.name + " (assumed)")
	var args []Val
	var ats []types.Type
	if owner != nil {
		args = append(args, x.val(st, fr, owner))
		ats = append(ats, owner.Type())
	}
	args = append(args, x.val(st, fr, ch))
	ats = append(ats, ch.Type())
	if send != nil {
		args = append(args, *send)
		ats = append(ats, et)
	}
	x.applyContract(st, c, c.name, args, ats, res, x.w.pkgTypes(c.pkg), pos, func(s *State, v Val) { rv = v })
	return
}

// chanRecv returns the received value followed by the ok flag.
func (x *Exec) chanRecv(st *State, fr *Frame, ch ssa.Value, pos token.Pos) Val {
	return x.chanOp(st, fr, "recv", ch, nil, core(ch.Type()).(*types.Chan).Elem(), pos)
}

// instr executes a straight-line instruction; a non-nil result asks for control of the continuation.
func (x *Exec) instr(st *State, fr *Frame, in ssa.Instruction) func(func(*State)) {
	switch n := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := deref(n.Type())
		if !isAgg(t) && x.w.localCell(n) {
			key := ekey{fr.id, n}
			// a new cell per execution of the Alloc
			x.allocs++
			c := &cellID{name: n.Comment, typ: t, n: x.allocs}
			_ = key
			st.cells[c] = zeroVal(t)
			x.set(st, fr, n, Val{ts: []*Term{x.cellTerm(c)}, loc: &Loc{kind: lCell, cell: c, typ: t}})
			return nil
		}
		r := x.freshAlloc(st, n.Comment, refSize(t))
		p := one(r)
		x.store(st, p, t, zeroVal(t))
		st.newObjs = append(st.newObjs, newObj{r, t})
		x.set(st, fr, n, p)
	case *ssa.Store:
		p := x.val(st, fr, n.Addr)
		x.nilDeref(st, p, n.Pos())
		x.guardAccess(st, p, true, n.Pos())
		v := x.val(st, fr, n.Val)
		t := deref(n.Addr.Type())
		if v.loc != nil && v.loc.kind != lCell {
			if _, ok := core(t).(*types.Pointer); ok {
				if p.loc == nil || p.loc.kind != lCell {
					x.w.escape(v.loc)
				}
			}
		}
		x.nonnilStore(st, p, v, n.Pos())
		if p.loc != nil && p.loc.kind == lCell && v.loc != nil {
			// keep the location with the cell
			st.cells[p.loc.cell] = v
			for _, r := range x.recs {
				r.cells[p.loc.cell] = true
			}
			return nil
		}
		x.store(st, p, t, v)
	case *ssa.UnOp:
		x.unop(st, fr, n)
	case *ssa.BinOp:
		a, b := x.val(st, fr, n.X), x.val(st, fr, n.Y)
		x.set(st, fr, n, x.binop(st, n.Op, a, b, n.X.Type(), n.Y.Type(), n.Type(), n.Pos()))
	case *ssa.FieldAddr:
		p := x.val(st, fr, n.X)
		t := deref(n.X.Type())
		x.nilDeref(st, p, n.Pos())
		x.set(st, fr, n, x.fieldAddr(st, p, t, n.Field))
	case *ssa.Field:
		v := x.val(st, fr, n.X)
		s := structOf(n.X.Type())
		if s == nil {
			x.bail("field of opaque %s", n.X.Type())
		}
		off := 0
		for i := 0; i < n.Field; i++ {
			off += len(leaves(s.Field(i).Type()))
		}
		x.set(st, fr, n, Val{ts: v.ts[off : off+len(leaves(n.Type()))]})
	case *ssa.IndexAddr:
		x.indexAddr(st, fr, n)
	case *ssa.Index:
		v := x.val(st, fr, n.X)
		i := x.val(st, fr, n.Index).t()
		switch u := core(n.X.Type()).(type) {
		case *types.Array:
			x.bounds(st, i, Int64(u.Len()), n.Pos())
			var out Val
			for _, a := range v.ts {
				out.ts = append(out.ts, Select(a, i))
			}
			x.wf(st, leaves(n.Type()), out.ts)
			x.set(st, fr, n, out)
		case *types.Basic: // string
			x.bounds(st, i, x.strlen(st, v.t()), n.Pos())
			x.set(st, fr, n, one(x.strat(st, v.t(), i)))
		default:
			x.bail("index of %s", n.X.Type())
		}
	case *ssa.Extract:
		v := x.val(st, fr, n.Tuple)
		from, to := tupleSlice(n.Tuple.Type().(*types.Tuple), n.Index)
		x.set(st, fr, n, Val{ts: v.ts[from:to]})
	case *ssa.Phi:
		x.bail("stray phi")
	case *ssa.Convert:
		v := x.val(st, fr, n.X)
		x.set(st, fr, n, x.convert(st, v, n.X.Type(), n.Type(), n.Pos()))
	case *ssa.MultiConvert:
		v := x.val(st, fr, n.X)
		x.set(st, fr, n, v)
	case *ssa.ChangeType:
		v := x.val(st, fr, n.X)
		x.set(st, fr, n, v)
	case *ssa.ChangeInterface:
		x.set(st, fr, n, x.val(st, fr, n.X))
	case *ssa.MakeInterface:
		v := x.val(st, fr, n.X)
		x.set(st, fr, n, one(x.box(st, v, n.X.Type())))
	case *ssa.TypeAssert:
		return x.typeAssert(st, fr, n)
	case *ssa.MakeClosure:
		fn := n.Fn.(*ssa.Function)
		var bs []Val
		for _, b := range n.Bindings {
			bs = append(bs, x.val(st, fr, b))
		}
		t := Fresh("clo_"+fn.Name(), SInt)
		t.rng, t.lo = true, bigOne
		closures[t] = &Closure{fn: fn, bind: bs, name: fn.String()}
		// specifications can ask which function literal a value is
		st.assume(App("isfn."+fn.Name(), SBool, t))
		x.set(st, fr, n, one(t))
	case *ssa.MakeSlice:
		x.makeSlice(st, fr, n)
	case *ssa.MakeMap:
		r := x.freshAlloc(st, "map", 1)
		mt := core(n.Type()).(*types.Map)
		x.initMap(st, r, mt)
		x.set(st, fr, n, one(r))
	case *ssa.MakeChan:
		r := x.freshAlloc(st, "chan", 1)
		regHeap("CHCAP", ArrOf(SInt), nil)
		sz := x.val(st, fr, n.Size).t()
		x.oblige(st, "makechan", "size", Le(Int64(0), sz), n.Pos())
		x.write(st, "CHCAP", r, nil, sz)
		if pk := n.Parent().Pkg; pk != nil {
			if c := x.w.db.ifaces[pk.Pkg.Name()+".chan.make"]; c != nil {
				x.applyContract(st, c, c.name, []Val{one(r)}, []types.Type{n.Type()}, types.NewTuple(), x.w.pkgTypes(c.pkg), n.Pos(), func(*State, Val) {})
			}
		}
		x.set(st, fr, n, one(r))
	case *ssa.Slice:
		x.sliceInstr(st, fr, n)
	case *ssa.Lookup:
		x.lookup(st, fr, n)
	case *ssa.MapUpdate:
		x.mapUpdate(st, x.val(st, fr, n.Map).t(), core(n.Map.Type()).(*types.Map), x.val(st, fr, n.Key), x.val(st, fr, n.Value), n.Pos())
	case *ssa.Range:
		x.set(st, fr, n, x.val(st, fr, n.X))
	case *ssa.Next:
		x.next(st, fr, n)
	case *ssa.Go:
		x.note("goroutine started: " + x.w.calleeName(&n.Call) + " is not executed by the verifier (its body is checked on its own when it has a contract)")
	case *ssa.Send:
		sv := x.val(st, fr, n.X)
		x.chanOp(st, fr, "send", n.Chan, &sv, n.X.Type(), n.Pos())
	case *ssa.SliceToArrayPointer:
		v := x.val(st, fr, n.X)
		a := core(deref(n.Type())).(*types.Array)
		x.oblige(st, "bounds", "slice to array", Le(Int64(a.Len()), v.ts[2]), n.Pos())
		x.oblige(st, "unsupported", "slice to array pointer with offset", Eq(v.ts[1], Int64(0)), n.Pos())
		x.set(st, fr, n, one(v.ts[0]))
	default:
		x.bail("instruction %T", in)
	}
	return nil
}

func (x *Exec) cellTerm(c *cellID) *Term {
	t := Fresh("cell_"+c.name, SInt)
	t.alloc = true
	t.rng, t.lo = true, bigOne
	return t
}

func (x *Exec) nilDeref(st *State, p Val, pos token.Pos) {
	if p.loc != nil {
		return
	}
	x.nilCheck(st, p.t(), "dereference", pos)
}

func (x *Exec) bounds(st *State, i, n *Term, pos token.Pos) {
	x.oblige(st, "bounds", "index", And(Le(Int64(0), i), Lt(i, n)), pos)
}

func (x *Exec) indexAddr(st *State, fr *Frame, n *ssa.IndexAddr) {
	v := x.val(st, fr, n.X)
	i := x.val(st, fr, n.Index).t()
	switch u := core(n.X.Type()).(type) {
	case *types.Slice:
		x.bounds(st, i, v.ts[2], n.Pos())
		x.set(st, fr, n, x.elemAddr(v.ts[0], Add(v.ts[1], i), u.Elem()))
	case *types.Pointer:
		a := core(u.Elem()).(*types.Array)
		x.nilDeref(st, v, n.Pos())
		x.bounds(st, i, Int64(a.Len()), n.Pos())
		if v.loc != nil {
			x.bail("index into array inside %v", v.loc.kind)
		}
		x.set(st, fr, n, x.elemAddr(v.t(), i, a.Elem()))
	default:
		x.bail("indexaddr of %s", n.X.Type())
	}
}

func (x *Exec) unop(st *State, fr *Frame, n *ssa.UnOp) {
	v := x.val(st, fr, n.X)
	switch n.Op {
	case token.MUL:
		x.nilDeref(st, v, n.Pos())
		x.guardAccess(st, v, false, n.Pos())
		if g, ok := n.X.(*ssa.Global); ok && !x.w.ssaPkgs[g.Pkg] {
			if l := leaves(deref(g.Type())); len(l) == 1 && l[0].sort == SInt {
				x.set(st, fr, n, one(x.w.extGlobal(g.Pkg.Pkg.Path()+"."+g.Name())))
				return
			}
		}
		if v.loc != nil && v.loc.kind == lCell {
			if cv, ok := st.cells[v.loc.cell]; ok && cv.loc != nil {
				x.set(st, fr, n, cv)
				return
			}
		}
		r := x.load(st, v, deref(n.X.Type()))
		x.nonnilLoad(st, v, r)
		x.set(st, fr, n, r)
	case token.NOT:
		x.set(st, fr, n, one(Not(v.t())))
	case token.SUB:
		t := v.t()
		if t.sort == SReal {
			x.set(st, fr, n, one(Sub(RealConst("0.0"), t)))
			return
		}
		x.set(st, fr, n, one(x.wrap(st, Neg(t), n.Type())))
	case token.XOR:
		x.set(st, fr, n, one(x.wrap(st, Sub(Int64(-1), v.t()), n.Type())))
	case token.ARROW:
		r := x.chanRecv(st, fr, n.X, n.Pos())
		if !n.CommaOk {
			r.ts = r.ts[:len(r.ts)-1]
		}
		x.set(st, fr, n, r)
	default:
		x.bail("unop %s", n.Op)
	}
}

func (x *Exec) makeSlice(st *State, fr *Frame, n *ssa.MakeSlice) {
	ln, cp := x.val(st, fr, n.Len).t(), x.val(st, fr, n.Cap).t()
	et := core(n.Type()).(*types.Slice).Elem()
	x.oblige(st, "makeslice", "len", And(Le(Int64(0), ln), Le(ln, cp)), n.Pos())
	st.assume(Le(cp, IntBig(maxLen)))
	r := x.newBacking(st, "slice", et, nil)
	x.set(st, fr, n, Val{ts: []*Term{r, Int64(0), ln, cp}})
}

// newBacking allocates a backing array of zero values (or given contents per leaf).
func (x *Exec) newBacking(st *State, name string, et types.Type, content []*Term) *Term {
	r := x.freshAlloc(st, name, 1)
	for i, l := range leaves(et) {
		k, so := elemHeap(et, l)
		regHeap(k, so, l)
		c := ConstArr(ArrOf(l.sort), zeroOf(l))
		if content != nil {
			c = content[i]
		}
		x.writeArr(st, k, r, c)
	}
	return r
}

func (x *Exec) sliceInstr(st *State, fr *Frame, n *ssa.Slice) {
	v := x.val(st, fr, n.X)
	get := func(e ssa.Value, d *Term) *Term {
		if e == nil {
			return d
		}
		return x.val(st, fr, e).t()
	}
	switch u := core(n.X.Type()).(type) {
	case *types.Slice:
		arr, off, ln, cp := v.ts[0], v.ts[1], v.ts[2], v.ts[3]
		lo := get(n.Low, Int64(0))
		hi := get(n.High, ln)
		mx := get(n.Max, cp)
		x.oblige(st, "bounds", "slice", And(Le(Int64(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)), n.Pos())
		x.set(st, fr, n, Val{ts: []*Term{arr, Add(off, lo), Sub(hi, lo), Sub(mx, lo)}})
	case *types.Pointer:
		a := core(u.Elem()).(*types.Array)
		N := Int64(a.Len())
		x.nilDeref(st, v, n.Pos())
		if v.loc != nil {
			x.bail("slicing an array inside an element")
		}
		lo := get(n.Low, Int64(0))
		hi := get(n.High, N)
		mx := get(n.Max, N)
		x.oblige(st, "bounds", "slice", And(Le(Int64(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, N)), n.Pos())
		x.set(st, fr, n, Val{ts: []*Term{v.t(), lo, Sub(hi, lo), Sub(mx, lo)}})
	case *types.Basic:
		s := v.t()
		L := x.strlen(st, s)
		lo := get(n.Low, Int64(0))
		hi := get(n.High, L)
		x.oblige(st, "bounds", "string slice", And(Le(Int64(0), lo), Le(lo, hi), Le(hi, L)), n.Pos())
		x.set(st, fr, n, one(x.substr(st, s, lo, hi)))
	default:
		x.bail("slice of %s", n.X.Type())
	}
}

// ---------------------------------------------------------------- maps

func mapKeys(mt *types.Map) (dom string, vals []string, ln string) {
	k := "M:" + typeKey(mt.Key()) + ":" + typeKey(mt.Elem())
	dom = k + "#dom"
	regHeap(dom, ArrOf(ArrOf(SBool)), nil)
	for _, l := range leaves(mt.Elem()) {
		vk := k + "#val" + l.name
		regHeap(vk, ArrOf(ArrOf(l.sort)), l)
		vals = append(vals, vk)
	}
	ln = k + "#len"
	regHeap(ln, ArrOf(SInt), &Leaf{sort: SInt, kind: kInt, lo: new(big.Int), hi: maxLen})
	return
}

func (x *Exec) mapKey(v Val) *Term {
	if len(v.ts) == 1 {
		return v.ts[0]
	}
	return App("mkey", SInt, v.ts...)
}

func (x *Exec) initMap(st *State, r *Term, mt *types.Map) {
	dom, vals, ln := mapKeys(mt)
	x.writeArr(st, dom, r, ConstArr(ArrOf(SBool), TFalse))
	for i, l := range leaves(mt.Elem()) {
		x.writeArr(st, vals[i], r, ConstArr(ArrOf(l.sort), zeroOf(l)))
	}
	x.write(st, ln, r, nil, Int64(0))
}

func (x *Exec) mapGet(st *State, m *Term, mt *types.Map, key *Term) (Val, *Term) {
	dom, vals, _ := mapKeys(mt)
	in := And(Ne(m, Int64(0)), Select(Select(st.get(dom), m), key))
	var v Val
	for i, l := range leaves(mt.Elem()) {
		sv := Select(Select(st.get(vals[i]), m), key)
		if l.kind == kInt && !sv.rng && sv.op == "select" {
			sv.rng, sv.lo, sv.hi = true, l.lo, l.hi
		}
		v.ts = append(v.ts, Ite(in, sv, zeroOf(l)))
	}
	x.wf(st, leaves(mt.Elem()), v.ts)
	return v, in
}

func (x *Exec) lookup(st *State, fr *Frame, n *ssa.Lookup) {
	switch u := core(n.X.Type()).(type) {
	case *types.Map:
		v, in := x.mapGet(st, x.val(st, fr, n.X).t(), u, x.mapKey(x.val(st, fr, n.Index)))
		if n.CommaOk {
			v.ts = append(v.ts, in)
		}
		x.set(st, fr, n, v)
	default: // string index
		s := x.val(st, fr, n.X).t()
		i := x.val(st, fr, n.Index).t()
		x.bounds(st, i, x.strlen(st, s), n.Pos())
		x.set(st, fr, n, one(x.strat(st, s, i)))
	}
}

func (x *Exec) mapUpdate(st *State, m *Term, mt *types.Map, key, v Val, pos token.Pos) {
	x.nilCheck(st, m, "assignment to map", pos)
	dom, vals, ln := mapKeys(mt)
	k := x.mapKey(key)
	in := Select(Select(st.get(dom), m), k)
	L := Select(st.get(ln), m)
	x.write(st, ln, m, nil, Add(L, Ite(in, Int64(0), Int64(1))))
	x.write(st, dom, m, k, TTrue)
	for i := range vals {
		x.write(st, vals[i], m, k, v.ts[i])
	}
}

func (x *Exec) mapDelete(st *State, m *Term, mt *types.Map, key Val) {
	dom, _, ln := mapKeys(mt)
	k := x.mapKey(key)
	in := And(Ne(m, Int64(0)), Select(Select(st.get(dom), m), k))
	L := Select(st.get(ln), m)
	x.write(st, ln, m, nil, Sub(L, Ite(in, Int64(1), Int64(0))))
	x.write(st, dom, m, k, TFalse)
}

func (x *Exec) next(st *State, fr *Frame, n *ssa.Next) {
	if n.IsString {
		x.bail("range over string")
	}
	rng := n.Iter.(*ssa.Range)
	mt := core(rng.X.Type()).(*types.Map)
	m := x.val(st, fr, n.Iter).t()
	ok := Fresh("more", SBool)
	k := x.freshVal(st, "key", mt.Key())
	v, in := x.mapGet(st, m, mt, x.mapKey(k))
	st.assume(Imp(ok, in))
	_, _, ln := mapKeys(mt)
	st.assume(Imp(Eq(Select(st.get(ln), m), Int64(0)), Not(ok)))
	r := Val{ts: []*Term{ok}}
	r.ts = append(r.ts, k.ts...)
	r.ts = append(r.ts, v.ts...)
	x.set(st, fr, n, r)
}

// ---------------------------------------------------------------- interfaces

var boxTypes = map[string]types.Type{}

func typeID(t types.Type) *Term {
	key := types.TypeString(t, nil)
	id, ok := typeIDs[key]
	if !ok {
		id = len(typeIDs) + 1
		typeIDs[key] = id
	}
	return Int64(int64(id))
}

var typeIDs = map[string]int{}

func (x *Exec) box(st *State, v Val, t types.Type) *Term {
	if types.IsInterface(t) {
		return v.t()
	}
	if v.loc != nil && v.loc.kind == lElem {
		if b, ok := core(t).(*types.Basic); ok && b.Kind() == types.UnsafePointer { // handed to C
			return x.freshVal(st, "addr", types.NewTuple(types.NewVar(0, nil, "", t))).t()
		}
	}
	if v.loc != nil && v.loc.kind != lCell {
		x.w.escape(v.loc)
	}
	name := "box:" + types.TypeString(t, nil)
	boxTypes[name] = t
	b := App(name, SInt, v.ts...)
	if len(v.ts) == 0 {
		b = NamedVar(name, SInt)
	}
	if !b.rng {
		b.rng, b.lo = true, bigOne
	}
	st.assume(Eq(App("typeof", SInt, b), typeID(t)))
	return b
}

func boxed(t *Term) (types.Type, []*Term, bool) {
	if (t.op == "app" || t.op == "var") && strings.HasPrefix(t.name, "box:") {
		return boxTypes[t.name], t.args, true
	}
	return nil, nil, false
}

func (x *Exec) unbox(st *State, b *Term, t types.Type) Val {
	if bt, args, ok := boxed(b); ok && types.Identical(bt, t) {
		return Val{ts: args}
	}
	var v Val
	ls := leaves(t)
	for _, l := range ls {
		u := App("unbox:"+types.TypeString(t, nil)+l.name, l.sort, b)
		if l.sort == SInt && !u.rng && (l.lo != nil || l.hi != nil) {
			u.rng, u.lo, u.hi = true, l.lo, l.hi
		}
		v.ts = append(v.ts, u)
	}
	x.wf(st, ls, v.ts)
	return v
}

func (x *Exec) typeAssert(st *State, fr *Frame, n *ssa.TypeAssert) func(func(*State)) {
	v := x.val(st, fr, n.X).t()
	var okT *Term
	var res Val
	if types.IsInterface(n.AssertedType) {
		if bt, _, ok := boxed(v); ok {
			okT = BoolT(types.AssertableTo(n.AssertedType.Underlying().(*types.Interface), bt) && types.Implements(bt, n.AssertedType.Underlying().(*types.Interface)))
		} else {
			okT = And(Ne(v, Int64(0)), App("implements:"+typeKey(n.AssertedType), SBool, v))
		}
		res = one(v)
	} else {
		if bt, _, ok := boxed(v); ok {
			okT = BoolT(types.Identical(bt, n.AssertedType))
		} else {
			okT = And(Ne(v, Int64(0)), Eq(App("typeof", SInt, v), typeID(n.AssertedType)))
		}
	}
	if !n.CommaOk {
		x.oblige(st, "typeassert", typeKey(n.AssertedType), okT, n.Pos())
		if res.ts == nil {
			res = x.unbox(st, v, n.AssertedType)
			st.assume(Eq(v, x.box(st, res, n.AssertedType)))
		}
		x.set(st, fr, n, res)
		return nil
	}
	return func(k func(*State)) {
		x.branch(st, okT, func(s *State) {
			r := res
			if r.ts == nil {
				r = x.unbox(s, v, n.AssertedType)
				s.assume(Eq(v, x.box(s, r, n.AssertedType)))
			}
			r = Val{ts: append(append([]*Term{}, r.ts...), TTrue)}
			x.set(s, fr, n, r)
			k(s)
		}, func(s *State) {
			r := zeroVal(n.AssertedType)
			r = Val{ts: append(append([]*Term{}, r.ts...), TFalse)}
			x.set(s, fr, n, r)
			k(s)
		})
	}
}

// ---------------------------------------------------------------- lock discipline and non-nil fields

func (x *Exec) guardAccess(st *State, p Val, write bool, pos token.Pos) {
	if p.loc == nil || p.loc.kind != lField || p.loc.field == "" {
		return
	}
	x.guardField(st, p.loc.field, p.loc.base, write, pos)
}

func (x *Exec) guardField(st *State, field string, base *Term, write bool, pos token.Pos) {
	mu, ok := x.w.db.guards[field]
	if !ok {
		mu, ok = x.w.db.guards[stripInst(field)]
	}
	if !ok || stripConst(base).alloc {
		return
	}
	i := strings.LastIndexByte(field, '.')
	key := lockName(stripInst(field[:i])+"."+mu, base)
	h, held := st.held[key]
	okc := held && (h.write || !write)
	x.oblige(st, "guard", field[i+1:]+" under "+mu, BoolT(okc), pos)
}

// stripInst removes type arguments: ring.Buffer[int16].f -> ring.Buffer.f
func stripInst(s string) string {
	i := strings.IndexByte(s, '[')
	if i < 0 {
		return s
	}
	j := strings.LastIndexByte(s, ']')
	return s[:i] + s[j+1:]
}

func lockName(field string, base *Term) string {
	return fmt.Sprintf("%s@%d", field, base.id)
}

func (x *Exec) nonnilLoad(st *State, p, v Val) {
	if p.loc == nil || p.loc.field == "" || !(x.w.db.nonnil[p.loc.field] || x.w.db.nonnil[stripInst(p.loc.field)]) {
		return
	}
	if len(v.ts) == 1 {
		if stripConst(p.loc.base).alloc {
			return // still under construction
		}
		st.assume(Ne(v.ts[0], Int64(0)))
	}
}

func (x *Exec) nonnilStore(st *State, p, v Val, pos token.Pos) {
	if p.loc == nil || p.loc.field == "" || !(x.w.db.nonnil[p.loc.field] || x.w.db.nonnil[stripInst(p.loc.field)]) {
		return
	}
	if len(v.ts) == 1 {
		x.oblige(st, "nonnil", p.loc.field, Ne(v.ts[0], Int64(0)), pos)
	}
}
