package main

import (
	"fmt"
	"go/constant"
		"go/types"
	"math/big"
	"strings"
)

// SVal is a specification value: a Go value (with its type) or a mathematical one (t == nil).
type SVal struct {
	v    Val
	t    types.Type
	list bool
	pkg  *types.Package
	gh   *ghostRef // partially applied two-index ghost
}

type ghostRef struct {
	name string
	at   *Term
}

type SpecCtx struct {
	x      *Exec
	st     *State
	old    *State
	loopSt *State
	names  map[string]SVal
	metas  map[string]func(*State) SVal
	pkg    *types.Package
	goal   bool
	inOld  bool
	depth  int
}

type specErr struct{ msg string }

func (c *SpecCtx) fail(f string, a ...any) SVal { panic(specErr{fmt.Sprintf(f, a...)}) }

// tryEval evaluates a boolean clause; specification errors are returned, not raised.
func (c *SpecCtx) tryBool(e *Expr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch s := r.(type) {
			case specErr:
				err = fmt.Errorf("%s", s.msg)
			case unsupported:
				err = fmt.Errorf("%s", s.msg)
			default:
				if s, ok := r.(string); ok && (strings.HasPrefix(s, "sort mismatch") || strings.HasPrefix(s, "select on")) {
					err = fmt.Errorf("%s", s)
					return
				}
				panic(r)
			}
		}
	}()
	return c.boolOf(e), nil
}

func (c *SpecCtx) boolOf(e *Expr) *Term {
	v := c.eval(e)
	if len(v.v.ts) != 1 || v.v.ts[0].sort != SBool {
		c.fail("%s is not a boolean", e)
	}
	return v.v.ts[0]
}

func (c *SpecCtx) intOf(e *Expr) *Term {
	v := c.eval(e)
	if len(v.v.ts) != 1 {
		c.fail("%s is not scalar", e)
	}
	t := v.v.ts[0]
	if t.sort != SInt && t.sort != SReal {
		c.fail("%s is not an integer", e)
	}
	return t
}

func mathv(t *Term) SVal { return SVal{v: one(t)} }

func (c *SpecCtx) sub() *SpecCtx {
	n := *c
	n.names = map[string]SVal{}
	for k, v := range c.names {
		n.names[k] = v
	}
	return &n
}

func (c *SpecCtx) typeByName(name string) types.Type {
	star := 0
	for strings.HasPrefix(name, "*") {
		name = name[1:]
		star++
	}
	t := c.x.w.findType(name, c.pkg)
	if t == nil {
		c.fail("unknown type %s", name)
	}
	for ; star > 0; star-- {
		t = types.NewPointer(t)
	}
	return t
}

func (c *SpecCtx) eval(e *Expr) SVal {
	c.depth++
	defer func() { c.depth-- }()
	if c.depth > 400 {
		c.fail("specification recursion")
	}
	switch e.op {
	case "int":
		return mathv(IntBig(e.ival))
	case "str":
		return SVal{v: one(c.x.w.strConst(e.name)), t: types.Typ[types.String]}
	case "meta":
		m, ok := c.metas[e.name]
		if !ok {
			return c.fail("no metavariable %s", e.name)
		}
		return m(c.st)
	case "ident":
		return c.ident(e.name)
	case "field":
		return c.field(c.eval(e.args[0]), e.name)
	case "index":
		return c.index(c.eval(e.args[0]), e.args[1])
	case "slice":
		b := c.eval(e.args[0])
		if b.t == nil {
			return c.fail("slicing a non-slice")
		}
		if bt, ok := core(b.t).(*types.Basic); ok && bt.Info()&types.IsString != 0 {
			lo, hi := Int64(0), c.x.strlen(c.st, b.v.t())
			if e.args[1] != nil {
				lo = c.intOf(e.args[1])
			}
			if e.args[2] != nil {
				hi = c.intOf(e.args[2])
			}
			return SVal{v: one(c.x.substr(c.st, b.v.t(), lo, hi)), t: b.t}
		}
		if len(b.v.ts) != 4 {
			return c.fail("slicing a non-slice")
		}
		lo, hi := Int64(0), b.v.ts[2]
		if e.args[1] != nil {
			lo = c.intOf(e.args[1])
		}
		if e.args[2] != nil {
			hi = c.intOf(e.args[2])
		}
		return SVal{v: Val{ts: []*Term{b.v.ts[0], Add(b.v.ts[1], lo), Sub(hi, lo), Sub(b.v.ts[3], lo)}}, t: b.t}
	case "un":
		switch e.name {
		case "!":
			return mathv(Not(c.boolOf(e.args[0])))
		case "-":
			t := c.intOf(e.args[0])
			if t.sort == SReal {
				return mathv(Sub(RealConst("0.0"), t))
			}
			return mathv(Neg(t))
		case "*":
			p := c.eval(e.args[0])
			if et := atomicElem(p.t); et != nil {
				// the value an atomic.Pointer points at
				return SVal{v: c.x.load(c.st, one(p.v.t()), et), t: et}
			}
			if p.t == nil || deref(p.t) == nil {
				return c.fail("dereference of non-pointer")
			}
			return SVal{v: c.x.load(c.st, p.v, deref(p.t)), t: deref(p.t)}
		}
	case "bin":
		return c.bin(e)
	case "forall", "exists", "each", "forallt":
		return c.quant(e)
	case "call":
		return c.call(e)
	}
	return c.fail("cannot evaluate %s", e)
}

func (c *SpecCtx) ident(n string) SVal {
	if v, ok := c.names[n]; ok {
		return v
	}
	switch n {
	case "true":
		return mathv(TTrue)
	case "false":
		return mathv(TFalse)
	case "nil":
		return SVal{v: one(Int64(0)), t: types.Typ[types.UntypedNil]}
	case "MaxInt16":
		return mathv(Int64(32767))
	case "MinInt16":
		return mathv(Int64(-32768))
	case "top":
		return mathv(c.st.top)
	case "now": // the last clock reading
		regHeap("NOW", SInt, nil)
		return mathv(c.st.get("NOW"))
	case "clock": // the first clock reading of the function
		if v, ok := c.names[n]; ok {
			return v
		}
		if c.st.clk == nil {
			return mathv(Fresh("clock", SInt))
		}
		return mathv(c.st.clk)
	}
	if d, ok := c.x.w.db.defs[n]; ok && len(d.params) == 0 {
		return c.eval(d.body)
	}
	if c.pkg != nil {
		if o := c.pkg.Scope().Lookup(n); o != nil {
			return c.object(o)
		}
		for _, p := range c.pkg.Imports() {
			if p.Name() == n {
				return SVal{pkg: p}
			}
		}
	}
	if p := c.x.w.pkgByName[n]; p != nil {
		return SVal{pkg: p}
	}
	return c.fail("unknown name %s", n)
}

func (c *SpecCtx) object(o types.Object) SVal {
	switch o := o.(type) {
	case *types.Const:
		switch o.Val().Kind() {
		case constant.Int:
			b, _ := new(big.Int).SetString(o.Val().ExactString(), 10)
			return SVal{v: one(IntBig(b)), t: o.Type()}
		case constant.String:
			return SVal{v: one(c.x.w.strConst(constant.StringVal(o.Val()))), t: o.Type()}
		case constant.Bool:
			return SVal{v: one(BoolT(constant.BoolVal(o.Val()))), t: o.Type()}
		case constant.Float:
			if i := constant.ToInt(o.Val()); i.Kind() == constant.Int {
				b, _ := new(big.Int).SetString(i.ExactString(), 10)
				return mathv(IntBig(b))
			}
			return SVal{v: one(realConst(o.Val())), t: o.Type()}
		}
	case *types.Var:
		g := c.x.w.global(o)
		if g == nil {
			if o.Pkg() != nil && !repoPkgs[o.Pkg().Path()] {
				return SVal{v: one(c.x.w.extGlobal(o.Pkg().Path() + "." + o.Name())), t: o.Type()}
			}
			return c.fail("no global %s", o.Name())
		}
		if isAgg(o.Type()) {
			return SVal{v: one(c.x.w.globalRef(g)), t: types.NewPointer(o.Type())}
		}
		return SVal{v: c.x.load(c.st, c.x.globalAddr(g), o.Type()), t: o.Type()}
	case *types.Func:
		if f := c.x.w.prog.FuncValue(o); f != nil {
			return SVal{v: one(fnTerm(f)), t: o.Type()}
		}
	}
	return c.fail("cannot use object %s", o.Name())
}

func (c *SpecCtx) field(b SVal, n string) SVal {
	if b.pkg != nil {
		o := b.pkg.Scope().Lookup(n)
		if q := c.x.w.pkgByName[b.pkg.Name()]; o == nil && q != nil {
			o = q.Scope().Lookup(n) // a package of this repository with the same name as an imported one
		}
		if o == nil {
			return c.fail("no %s in package %s", n, b.pkg.Name())
		}
		return c.object(o)
	}
	if b.t == nil {
		return c.fail("field %s of a mathematical value", n)
	}
	t := b.t
	if p := deref(t); p != nil {
		s := structOf(p)
		if s == nil {
			return c.fail("field %s of %s", n, t)
		}
		idx := fieldPath(p, n)
		if idx == nil {
			return c.fail("no field %s in %s", n, p)
		}
		addr := b.v
		cur := p
		for k, i := range idx {
			st := structOf(cur)
			f := st.Field(i)
			if addr.loc == nil && len(addr.ts) == 1 {
				addr = c.x.fieldAddr(c.st, addr, cur, i)
			} else {
				addr = c.x.fieldAddr(c.st, addr, cur, i)
			}
			if k == len(idx)-1 {
				if isAgg(f.Type()) {
					return SVal{v: addr, t: types.NewPointer(f.Type())}
				}
				return SVal{v: c.x.load(c.st, addr, f.Type()), t: f.Type()}
			}
			cur = f.Type()
			if dp := deref(cur); dp != nil {
				addr = c.x.load(c.st, addr, cur)
				cur = dp
			}
		}
	}
	if s := structOf(t); s != nil {
		idx := fieldPath(t, n)
		if idx == nil {
			return c.fail("no field %s in %s", n, t)
		}
		cur := b
		for _, i := range idx {
			st := structOf(cur.t)
			if st == nil {
				return c.field(cur, n)
			}
			off := 0
			for k := 0; k < i; k++ {
				off += len(leaves(st.Field(k).Type()))
			}
			ft := st.Field(i).Type()
			cur = SVal{v: Val{ts: cur.v.ts[off : off+len(leaves(ft))]}, t: ft}
		}
		return cur
	}
	return c.fail("field %s of %s", n, t)
}

// fieldPath finds a (possibly promoted) field.
func fieldPath(t types.Type, n string) []int {
	s := structOf(t)
	if s == nil {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == n {
			return []int{i}
		}
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			ft := s.Field(i).Type()
			if p := deref(ft); p != nil {
				ft = p
			}
			if sub := fieldPath(ft, n); sub != nil {
				return append([]int{i}, sub...)
			}
		}
	}
	return nil
}

func (c *SpecCtx) index(b SVal, ie *Expr) SVal {
	if b.gh != nil {
		return mathv(Select(Select(c.ghostHeap(b.gh.name, 2), b.gh.at), c.intOf(ie)))
	}
	if b.t == nil {
		if len(b.v.ts) == 1 && b.v.ts[0].sort.elem != nil {
			return mathv(Select(b.v.ts[0], c.intOf(ie)))
		}
		return c.fail("index of a mathematical value")
	}
	switch u := core(b.t).(type) {
	case *types.Slice:
		i := c.intOf(ie)
		var ts []*Term
		for _, l := range leaves(u.Elem()) {
			k, so := elemHeap(u.Elem(), l)
			regHeap(k, so, l)
			ts = append(ts, Select(Select(c.st.get(k), b.v.ts[0]), Add(b.v.ts[1], i)))
		}
		c.x.wf(c.st, leaves(u.Elem()), ts)
		return SVal{v: Val{ts: ts}, t: u.Elem()}
	case *types.Pointer:
		a, ok := core(u.Elem()).(*types.Array)
		if !ok {
			return c.fail("index of pointer")
		}
		i := c.intOf(ie)
		var ts []*Term
		for _, l := range leaves(a.Elem()) {
			k, so := elemHeap(a.Elem(), l)
			regHeap(k, so, l)
			ts = append(ts, Select(Select(c.st.get(k), b.v.t()), i))
		}
		c.x.wf(c.st, leaves(a.Elem()), ts)
		return SVal{v: Val{ts: ts}, t: a.Elem()}
	case *types.Array:
		i := c.intOf(ie)
		var ts []*Term
		for _, a := range b.v.ts {
			ts = append(ts, Select(a, i))
		}
		return SVal{v: Val{ts: ts}, t: u.Elem()}
	case *types.Map:
		key := c.eval(ie)
		v, _ := c.x.mapGet(c.st, b.v.t(), u, c.x.mapKey(key.v))
		return SVal{v: v, t: u.Elem()}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return mathv(c.x.strat(c.st, b.v.t(), c.intOf(ie)))
		}
	}
	return c.fail("cannot index %s", b.t)
}

func (c *SpecCtx) bin(e *Expr) SVal {
	switch e.name {
	case "&&":
		a := c.boolOf(e.args[0])
		if a == TFalse {
			return mathv(TFalse)
		}
		return mathv(And(a, c.boolOf(e.args[1])))
	case "||":
		return mathv(Or(c.boolOf(e.args[0]), c.boolOf(e.args[1])))
	case "==>":
		a := c.boolOf(e.args[0])
		if a == TFalse {
			return mathv(TTrue)
		}
		return mathv(Imp(a, c.boolOf(e.args[1])))
	case "<==>":
		return mathv(Eq(c.boolOf(e.args[0]), c.boolOf(e.args[1])))
	case "==", "!=":
		a, b := c.eval(e.args[0]), c.eval(e.args[1])
		t := c.equal(a, b)
		if e.name == "!=" {
			t = Not(t)
		}
		return mathv(t)
	}
	a, b := c.intOf(e.args[0]), c.intOf(e.args[1])
	if a.sort == SReal && b.isInt() {
		b = RealConst(b.ival.String() + ".0")
	}
	if b.sort == SReal && a.isInt() {
		a = RealConst(a.ival.String() + ".0")
	}
	if a.sort != b.sort {
		return c.fail("mixed real and integer in %s", e)
	}
	if a.sort == SReal && c.x.absmul() && !constReal(a) && !constReal(b) {
		switch e.name {
		case "*":
			return mathv(realMul(a, b))
		case "/":
			return mathv(App("g.rdiv", SReal, a, b))
		}
	}
	switch e.name {
	case "+":
		return mathv(Add(a, b))
	case "-":
		return mathv(Sub(a, b))
	case "*":
		return mathv(Mul(a, b))
	case "/":
		if a.sort == SReal {
			return mathv(intern(&Term{op: "/", sort: SReal, args: []*Term{a, b}}))
		}
		return mathv(Div(a, b))
	case "%":
		if !b.isInt() {
			return mathv(App("g.rem", SInt, a, b))
		}
		return mathv(Mod(a, b))
	case "<":
		return mathv(Lt(a, b))
	case "<=":
		return mathv(Le(a, b))
	case ">":
		return mathv(Gt(a, b))
	case ">=":
		return mathv(Ge(a, b))
	case "<<":
		if b.isInt() {
			return mathv(Mul(a, IntBig(pow2(int(b.ival.Int64())))))
		}
		return mathv(c.x.shift(c.st, true, a, b, types.Typ[types.Int], types.Typ[types.Uint], 0))
	case ">>":
		if b.isInt() {
			return mathv(Div(a, IntBig(pow2(int(b.ival.Int64())))))
		}
		return mathv(c.x.shift(c.st, false, a, b, types.Typ[types.Int], types.Typ[types.Uint], 0))
	}
	return c.fail("operator %s", e.name)
}

func (c *SpecCtx) equal(a, b SVal) *Term {
	if a.t == types.Typ[types.UntypedNil] {
		a, b = b, a
	}
	if b.t == types.Typ[types.UntypedNil] {
		return Eq(a.v.ts[0], Int64(0))
	}
	if a.t != nil && b.t != nil {
		// fields of struct type evaluate to their address
		if d := deref(a.t); d != nil && types.Identical(d, b.t) {
			a = SVal{v: c.x.load(c.st, a.v, d), t: d}
		} else if d := deref(b.t); d != nil && types.Identical(d, a.t) {
			b = SVal{v: c.x.load(c.st, b.v, d), t: d}
		}
		if types.IsInterface(a.t) != types.IsInterface(b.t) {
			return c.x.equal(c.st, a.v, b.v, a.t, b.t)
		}
		if _, ok := core(a.t).(*types.Struct); ok {
			return c.x.equal(c.st, a.v, b.v, a.t, b.t)
		}
		if _, ok := core(a.t).(*types.Array); ok {
			return c.x.equal(c.st, a.v, b.v, a.t, b.t)
		}
	}
	if len(a.v.ts) != len(b.v.ts) {
		c.fail("comparing values of different shape")
	}
	var cs []*Term
	for i := range a.v.ts {
		if a.v.ts[i].sort != b.v.ts[i].sort {
			c.fail("comparing values of different sort")
		}
		cs = append(cs, Eq(a.v.ts[i], b.v.ts[i]))
	}
	return And(cs...)
}

// quant: each(k, lo, hi, body) is a forall over constant bounds that is checked instance by instance.
func (c *SpecCtx) quant(e *Expr) SVal {
	if e.op == "each" {
		if c.goal {
			lo, hi := c.intOf(e.args[1]), c.intOf(e.args[2])
			if !lo.isInt() || !hi.isInt() || len(e.bind) != 1 {
				return c.fail("each needs constant bounds")
			}
			var cs []*Term
			for k := lo.ival.Int64(); k < hi.ival.Int64(); k++ {
				n := c.sub()
				n.names[e.bind[0]] = mathv(Int64(k))
				cs = append(cs, n.boolOf(e.args[0]))
			}
			return mathv(And(cs...))
		}
		e = &Expr{op: "forall", bind: e.bind, args: e.args}
	}
	n := c.sub()
	var bv []*Term
	for _, b := range e.bind {
		t := BoundVar(b, SInt)
		bv = append(bv, t)
		n.names[b] = mathv(t)
	}
	var guard *Term = TTrue
	if e.op != "forallt" && len(e.args) == 3 {
		lo, hi := n.intOf(e.args[1]), n.intOf(e.args[2])
		for _, b := range bv {
			guard = And(guard, Le(lo, b), Lt(b, hi))
		}
	}
	nf := len(n.st.facts)
	body := n.boolOf(e.args[0])
	n.liftFacts(nf, bv)
	if e.op == "forallt" {
		var pats [][]*Term
		for _, a := range e.args[1:] {
			if t := n.eval(a).v.ts[0]; t.bound && plainTerm(t) && (t.op == "select" || t.op == "app") {
				pats = append(pats, []*Term{t})
			}
		}
		if body == TTrue || body == TFalse {
			return mathv(body)
		}
		return mathv(Forall(bv, body, pats...))
	}
	if e.op == "exists" {
		return mathv(Exists(bv, And(guard, body)))
	}
	return mathv(mkForall(bv, guard, body, c.goal))
}

// liftFacts quantifies the side facts added while evaluating a quantified body that mention its variables.
func (c *SpecCtx) liftFacts(from int, bv []*Term) {
	if len(c.st.facts) == from {
		return
	}
	add := append([]*Term(nil), c.st.facts[from:]...)
	c.st.facts = c.st.facts[:from:from]
	for _, f := range add {
		var vs []*Term
		for _, b := range bv {
			if occursIn(b, f) {
				vs = append(vs, b)
			}
		}
		if len(vs) == 0 {
			c.st.facts = append(c.st.facts, f)
			continue
		}
		delete(c.st.fset, f)
		if f.op == "forall" {
			continue
		}
		c.st.assume(Forall(vs, f, patternsFor(vs, f)...))
	}
}

func occursIn(v, t *Term) bool {
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// mkForall normalises the quantified variable so that array accesses have the
// bare variable as index, which gives the solvers usable triggers.
func mkForall(bv []*Term, guard, body *Term, goal bool) *Term {
	full := Imp(guard, body)
	if full == TTrue || full == TFalse {
		return full
	}
	if len(bv) != 1 {
		nb := append([]*Term(nil), bv...)
		for i, k := range nb {
			offs, _ := selectOffsets(full, k)
			if len(offs) == 0 || offs[0].isInt() && offs[0].ival.Sign() == 0 {
				continue
			}
			j := BoundVar("j", SInt)
			full = Subst(full, map[*Term]*Term{k: Sub(j, offs[0])})
			nb[i] = j
		}
		return Forall(nb, full, patternsFor(nb, full)...)
	}
	k := bv[0]
	offs, sels := selectOffsets(full, k)
	if len(offs) == 0 {
		return Forall(bv, full, patternsFor(bv, full)...)
	}
	if goal && len(offs) > 1 {
		offs = offs[:1]
	}
	if len(offs) > 3 {
		offs = offs[:3]
	}
	_ = sels
	var out []*Term
	for _, o := range offs {
		f := full
		if !(o.isInt() && o.ival.Sign() == 0) {
			// k := k - o
			j := BoundVar("j", SInt)
			f = Subst(full, map[*Term]*Term{k: Sub(j, o)})
			out = append(out, Forall([]*Term{j}, f, patternsFor([]*Term{j}, f)...))
			continue
		}
		out = append(out, Forall(bv, f, patternsFor(bv, f)...))
	}
	return And(out...)
}

// selectOffsets lists ground offsets o such that select(_, o+k) occurs.
func selectOffsets(t, k *Term) (offs []*Term, sels []*Term) {
	seen := map[*Term]bool{}
	so := map[*Term]bool{}
	var rec func(*Term)
	rec = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		if t.op == "select" && t.args[1].bound {
			o := Sub(t.args[1], k)
			if !o.bound && !so[o] {
				so[o] = true
				offs = append(offs, o)
				sels = append(sels, t)
			}
		}
		if t.op == "app" {
			for _, a := range t.args {
				if a.bound {
					o := Sub(a, k)
					if !o.bound && !so[o] {
						so[o] = true
						offs = append(offs, o)
					}
				}
			}
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return
}

// patternsFor: every select/app whose arguments are plain and cover the bound variables becomes a trigger.
func patternsFor(bv []*Term, body *Term) [][]*Term {
	var pats [][]*Term
	seen := map[*Term]bool{}
	isBV := func(t *Term) bool {
		for _, b := range bv {
			if b == t {
				return true
			}
		}
		return false
	}
	covers := func(t *Term) map[*Term]bool {
		m := map[*Term]bool{}
		var rec func(*Term)
		rec = func(t *Term) {
			if !t.bound {
				return
			}
			if isBV(t) {
				m[t] = true
			}
			for _, a := range t.args {
				rec(a)
			}
		}
		rec(t)
		return m
	}
	// variables of a quantifier nested in the body cannot occur in a trigger
	var foreign func(*Term) bool
	fmemo := map[*Term]bool{}
	inner := map[*Term]bool{}
	seenq := map[*Term]bool{}
	var collect func(*Term)
	collect = func(t *Term) {
		if !t.bound || seenq[t] {
			return
		}
		seenq[t] = true
		for _, b := range t.bvars {
			inner[b] = true
		}
		for _, a := range t.args {
			collect(a)
		}
	}
	collect(body)
	foreign = func(t *Term) bool {
		if !t.bound {
			return false
		}
		if r, ok := fmemo[t]; ok {
			return r
		}
		r := inner[t]
		for _, a := range t.args {
			r = r || foreign(a)
		}
		fmemo[t] = r
		return r
	}
	var multi []*Term
	var rec func(*Term)
	rec = func(t *Term) {
		if !t.bound || seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			rec(a)
		}
		if len(t.bvars) > 0 || foreign(t) {
			return
		}
		good := false
		if t.op == "select" && isBV(t.args[1]) && cleanPat(t.args[0]) {
			good = true
		}
		if t.op == "app" {
			good = true
			for _, a := range t.args {
				if a.bound && !isBV(a) && !(a.op == "select" || a.op == "app") {
					good = false
				}
			}
		}
		if good {
			if len(covers(t)) == len(bv) {
				pats = append(pats, []*Term{t})
			} else {
				multi = append(multi, t)
			}
		}
	}
	rec(body)
	if len(pats) == 0 && len(multi) > 0 && len(bv) > 1 {
		// one multi-pattern covering all variables
		cov := map[*Term]bool{}
		var mp []*Term
		for _, m := range multi {
			add := false
			for v := range covers(m) {
				if !cov[v] {
					add = true
					cov[v] = true
				}
			}
			if add {
				mp = append(mp, m)
			}
		}
		if len(cov) == len(bv) {
			pats = append(pats, mp)
		}
	}
	if len(pats) > 6 {
		pats = pats[:6]
	}
	return pats
}

var plainMemo = map[*Term]bool{}

// plainTerm: no connectives inside (they are not allowed in triggers)
func plainTerm(t *Term) bool {
	if r, ok := plainMemo[t]; ok {
		return r
	}
	r := true
	switch t.op {
	case "ite", "and", "or", "not", "=>", "=", "<", "<=", "forall", "exists":
		r = false
	default:
		for _, a := range t.args {
			if !plainTerm(a) {
				r = false
				break
			}
		}
	}
	plainMemo[t] = r
	return r
}

func cleanPat(t *Term) bool {
	if !t.bound {
		return plainTerm(t)
	}
	return t.op == "select" && cleanPat(t.args[0])
}

func (c *SpecCtx) ghostHeap(name string, ar int) *Term {
	so := ArrOf(SInt)
	if ar == 2 {
		so = ArrOf(ArrOf(SInt))
	}
	if ar == 0 {
		so = SInt
	}
	regHeap("G:"+name, so, nil)
	return c.st.get("G:" + name)
}

// revealed: the unit being verified may unfold an opaque definition.
func (x *Exec) revealed(name string) bool {
	return x.unit.c == nil || x.unit.c.reveal[name]
}

func (c *SpecCtx) call(e *Expr) SVal {
	w := c.x.w
	// names bound to function-like ghosts, logic symbols, definitions
	if d, ok := w.db.defs[e.name]; ok {
		if len(d.params) != len(e.args) {
			return c.fail("def %s: wrong number of arguments", e.name)
		}
		n := c.sub()
		for i, p := range d.params {
			n.names[p] = c.eval(e.args[i])
		}
		r := n.eval(d.body)
		if d.opaque && !c.x.revealed(e.name) {
			// the value of an opaque definition of mathematical arguments is an unknown function of them
			var as []*Term
			for _, p := range d.params {
				as = append(as, n.names[p].v.ts...)
			}
			return mathv(App("def:"+e.name, r.v.t().sort, as...))
		}
		return r
	}
	if ar, ok := w.db.ghosts[e.name]; ok {
		h := c.ghostHeap(e.name, ar)
		if ar == 0 {
			return mathv(h)
		}
		at := c.refOf(e.args[0])
		if ar == 1 {
			return mathv(Select(h, at))
		}
		if len(e.args) == 2 {
			return mathv(Select(Select(h, at), c.intOf(e.args[1])))
		}
		return SVal{gh: &ghostRef{e.name, at}, v: one(Select(h, at))}
	}
	if s, ok := w.db.logic[e.name]; ok {
		var as []*Term
		for _, a := range e.args {
			as = append(as, c.eval(a).v.ts...)
		}
		if len(as) == 0 {
			return mathv(NamedVar("logic:"+e.name, s))
		}
		return mathv(App("logic:"+e.name, s, as...))
	}
	arg := func(i int) SVal { return c.eval(e.args[i]) }
	switch e.name {
	case "old":
		if c.old == nil {
			return c.fail("old() without a pre-state")
		}
		n := *c
		n.st = c.old
		return n.eval(e.args[0])
	case "atloop":
		if c.loopSt == nil {
			return c.fail("atloop() outside a loop")
		}
		n := *c
		n.st = c.loopSt
		return n.eval(e.args[0])
	case "len":
		v := arg(0)
		if v.t == nil {
			return c.fail("len of a mathematical value")
		}
		switch u := core(v.t).(type) {
		case *types.Slice:
			return mathv(v.v.ts[2])
		case *types.Basic:
			return mathv(c.x.strlen(c.st, v.v.t()))
		case *types.Map:
			_, _, ln := mapKeys(u)
			m := v.v.t()
			return mathv(Ite(Eq(m, Int64(0)), Int64(0), Select(c.st.get(ln), m)))
		case *types.Array:
			return mathv(Int64(u.Len()))
		case *types.Pointer:
			if a, ok := core(u.Elem()).(*types.Array); ok {
				return mathv(Int64(a.Len()))
			}
		}
		return c.fail("len of %s", v.t)
	case "slen": // length of a slice, 0 for other values
		v := arg(0)
		if v.t != nil {
			if _, ok := core(v.t).(*types.Slice); ok && len(v.v.ts) == 4 {
				return mathv(v.v.ts[2])
			}
		}
		return mathv(Int64(0))
	case "sat": // element of a slice, 0 for other values
		v := arg(0)
		if v.t != nil {
			if sl, ok := core(v.t).(*types.Slice); ok && len(v.v.ts) == 4 && len(leaves(sl.Elem())) == 1 && leaves(sl.Elem())[0].sort == SInt {
				return c.index(v, e.args[1])
			}
		}
		return mathv(Int64(0))
	case "sid": // first component of a value
		v := arg(0)
		if len(v.v.ts) == 0 || v.v.ts[0].sort != SInt {
			return mathv(Int64(0))
		}
		return mathv(v.v.ts[0])
	case "cap":
		v := arg(0)
		if v.t != nil && len(v.v.ts) == 1 {
			if _, ok := core(v.t).(*types.Chan); ok {
				regHeap("CHCAP", ArrOf(SInt), nil)
				return mathv(Select(c.st.get("CHCAP"), v.v.ts[0]))
			}
		}
		if len(v.v.ts) != 4 {
			return c.fail("cap")
		}
		return mathv(v.v.ts[3])
	case "arr":
		v := arg(0)
		if len(v.v.ts) != 4 {
			return c.fail("arr")
		}
		return mathv(v.v.ts[0])
	case "off":
		v := arg(0)
		if len(v.v.ts) != 4 {
			return c.fail("off")
		}
		return mathv(v.v.ts[1])
	case "min":
		a, b := c.intOf(e.args[0]), c.intOf(e.args[1])
		return mathv(Ite(Le(a, b), a, b))
	case "max":
		a, b := c.intOf(e.args[0]), c.intOf(e.args[1])
		return mathv(Ite(Le(a, b), b, a))
	case "abs":
		a := c.intOf(e.args[0])
		return mathv(Ite(Le(Int64(0), a), a, Neg(a)))
	case "ite":
		b := c.boolOf(e.args[0])
		if b == TTrue {
			return arg(1)
		}
		if b == TFalse {
			return arg(2)
		}
		p, q := arg(1), arg(2)
		r := SVal{t: p.t}
		if len(p.v.ts) != len(q.v.ts) {
			return c.fail("ite shapes")
		}
		for i := range p.v.ts {
			r.v.ts = append(r.v.ts, Ite(b, p.v.ts[i], q.v.ts[i]))
		}
		return r
	case "u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64":
		bits := map[string]int{"8": 8, "16": 16, "32": 32, "64": 64}[e.name[1:]]
		t := c.intOf(e.args[0])
		lo, hi := bounds(bits, e.name[0] == 'i')
		if inRange(t, lo, hi) {
			return mathv(t)
		}
		if c.x.absmul() && nonlinear(t) {
			return mathv(c.x.wrapBits(c.st, t, bits, e.name[0] == 'i'))
		}
		if !t.bound && !nonlinear(t) && c.x.proves(c.st, And(Le(IntBig(lo), t), Le(t, IntBig(hi))), 200) {
			return mathv(t)
		}
		return mathv(wrapTerm(t, bits, e.name[0] == 'i'))
	case "inrange16":
		t := c.intOf(e.args[0])
		return mathv(And(Le(Int64(-32768), t), Le(t, Int64(32767))))
	case "quo":
		return mathv(c.x.quo(c.st, c.intOf(e.args[0]), c.intOf(e.args[1])))
	case "rem":
		return mathv(c.x.rem(c.st, c.intOf(e.args[0]), c.intOf(e.args[1])))
	case "band":
		a, b := c.intOf(e.args[0]), c.intOf(e.args[1])
		return mathv(c.x.bitAnd(c.st, a, b, 16))
	case "bor":
		a, b := c.intOf(e.args[0]), c.intOf(e.args[1])
		return mathv(c.x.bitOr(c.st, a, b, 16))
	case "bxor":
		a, b := c.intOf(e.args[0]), c.intOf(e.args[1])
		bits := 16
		if len(e.args) == 3 {
			bits = int(c.intOf(e.args[2]).ival.Int64())
		}
		return mathv(c.x.bitXor(c.st, a, b, bits))
	case "fresh": // allocated since the pre-state
		v := arg(0)
		if c.old == nil {
			return c.fail("fresh() without a pre-state")
		}
		return mathv(Lt(c.old.top, v.v.ts[0]))
	case "existed":
		v := arg(0)
		return mathv(And(Le(Int64(0), v.v.ts[0]), Le(v.v.ts[0], c.old.top)))
	case "ref":
		return mathv(c.refOf(e.args[0]))
	case "dom":
		m := arg(0)
		mt, ok := core(m.t).(*types.Map)
		if !ok {
			return c.fail("dom of non-map")
		}
		_, in := c.x.mapGet(c.st, m.v.t(), mt, c.x.mapKey(arg(1).v))
		return mathv(in)
	case "typeis":
		v := arg(0)
		t := c.typeByName(c.typeName(e.args[1]))
		if bt, _, ok := boxed(v.v.t()); ok {
			return mathv(BoolT(types.Identical(bt, t) || sameOrigin(bt, t)))
		}
		return mathv(And(Ne(v.v.t(), Int64(0)), Eq(App("typeof", SInt, v.v.t()), typeID(t))))
	case "unbox":
		v := arg(0)
		if len(e.args) == 1 {
			bt, as, ok := boxed(v.v.t())
			if !ok {
				return c.fail("unbox of a value of unknown type")
			}
			return SVal{v: Val{ts: as}, t: bt}
		}
		t := c.typeByName(c.typeName(e.args[1]))
		return SVal{v: c.x.unbox(c.st, v.v.t(), t), t: t}
	case "as": // a reference as a typed pointer
		return SVal{v: one(c.intOf(e.args[0])), t: c.typeByName(c.typeName(e.args[1]))}
	case "box":
		v := arg(0)
		return SVal{v: one(c.x.box(c.st, v.v, v.t)), t: types.NewInterfaceType(nil, nil)}
	case "contents", "ctn": // identity of the contents of a slice of scalars (ctn: of anything)
		v := arg(0)
		if v.t == nil {
			return c.fail("contents of a mathematical value")
		}
		sl, ok := core(v.t).(*types.Slice)
		if e.name == "ctn" && (!ok || len(leaves(sl.Elem())) != 1) {
			return c.call(&Expr{op: "call", name: "sid", args: e.args})
		}
		if !ok || len(leaves(sl.Elem())) != 1 {
			return c.fail("contents of non-slice")
		}
		k, so := elemHeap(sl.Elem(), leaves(sl.Elem())[0])
		regHeap(k, so, leaves(sl.Elem())[0])
		arr, off, ln := Select(c.st.get(k), v.v.ts[0]), v.v.ts[1], v.v.ts[2]
		id := App("ctn:"+typeKey(sl.Elem()), SInt, arr, off, ln)
		i := BoundVar("i", SInt)
		at := App("ctel", SInt, id, i)
		if !off.bound && !ln.bound && !v.v.ts[0].bound {
			c.st.assume(Forall([]*Term{i}, Imp(And(Le(Int64(0), i), Lt(i, ln)), Eq(at, Select(arr, Add(off, i)))), []*Term{at}))
		}
		return mathv(id)
	case "elemof": // element of such contents
		return mathv(App("ctel", SInt, c.intOf(e.args[0]), c.intOf(e.args[1])))
	case "addr": // address of a field
		f := e.args[0]
		if f.op != "field" && f.op != "sel" {
			return c.fail("addr of %s", f)
		}
		b := c.eval(f.args[0])
		p := deref(b.t)
		if p == nil || len(fieldPath(p, f.name)) != 1 {
			return c.fail("addr of %s", f)
		}
		return mathv(c.x.fieldAddr(c.st, b.v, p, fieldPath(p, f.name)[0]).ts[0])
	case "ptrslice16": // the n 16 bit elements at an address handed to C
		v, n := arg(0), c.intOf(e.args[1])
		et := types.Typ[types.Int16]
		ts := []*Term{v.v.ts[0], Int64(0), n, n}
		if l := v.v.loc; l != nil {
			if l.kind != lElem || !types.Identical(core(l.elemT), et) {
				return c.fail("ptrslice16 of another kind of address")
			}
			ts[0], ts[1] = l.ref, l.idx
		}
		return SVal{v: Val{ts: ts}, t: types.NewSlice(et)}
	case "strbyte":
		return mathv(c.x.strat(c.st, arg(0).v.t(), c.intOf(e.args[1])))
	case "concat":
		return SVal{v: one(c.x.strcat(c.st, arg(0).v.t(), arg(1).v.t())), t: types.Typ[types.String]}
	case "lower":
		return SVal{v: one(c.x.strLower(c.st, arg(0).v.t())), t: types.Typ[types.String]}
	case "strfn": // strfn("name", args...) : uninterpreted string function as used by the native models
		var as []*Term
		for _, a := range e.args[1:] {
			as = append(as, c.eval(a).v.ts...)
		}
		return SVal{v: one(App(e.args[0].name, SInt, as...)), t: types.Typ[types.String]}
	case "intfn":
		var as []*Term
		for _, a := range e.args[1:] {
			as = append(as, c.eval(a).v.ts...)
		}
		return mathv(App(e.args[0].name, SInt, as...))
	case "realfn":
		var as []*Term
		for _, a := range e.args[1:] {
			as = append(as, c.eval(a).v.ts...)
		}
		return mathv(App(e.args[0].name, SReal, as...))
	case "pi":
		return mathv(realConst(constant.MakeFloat64(3.14159265358979323846264338327950288419716939937510582097494459)))
	case "boolfn":
		var as []*Term
		for _, a := range e.args[1:] {
			as = append(as, c.eval(a).v.ts...)
		}
		return mathv(App(e.args[0].name, SBool, as...))
	case "real":
		t := c.intOf(e.args[0])
		if t.isInt() {
			return mathv(RealConst(t.ival.String() + ".0"))
		}
		return mathv(intern(&Term{op: "to_real", sort: SReal, args: []*Term{t}}))
	case "bytes": // content of a byte slice as a string id
		v := arg(0)
		sl, ok := core(v.t).(*types.Slice)
		if !ok {
			return c.fail("bytes of non-slice")
		}
		k, so := elemHeap(sl.Elem(), leaves(sl.Elem())[0])
		regHeap(k, so, leaves(sl.Elem())[0])
		return SVal{v: one(c.x.bytesToStr(c.st, Select(c.st.get(k), v.v.ts[0]), v.v.ts[1], v.v.ts[2])), t: types.Typ[types.String]}
	case "held":
		return c.fail("held() belongs in a holds clause")
	case "sameelems": // sameelems(s): the backing content of s is as in the pre-state
		v := arg(0)
		sl, ok := core(v.t).(*types.Slice)
		if !ok {
			return c.fail("sameelems of non-slice")
		}
		var cs []*Term
		for _, l := range leaves(sl.Elem()) {
			k, so := elemHeap(sl.Elem(), l)
			regHeap(k, so, l)
			a, b := Select(c.st.get(k), v.v.ts[0]), Select(c.old.get(k), v.v.ts[0])
			if a == b {
				continue
			}
			j := BoundVar("j", SInt)
			cs = append(cs, Forall([]*Term{j}, Imp(And(Le(v.v.ts[1], j), Lt(j, Add(v.v.ts[1], v.v.ts[2]))), Eq(Select(a, j), Select(b, j))), []*Term{Select(a, j)}))
		}
		return mathv(And(cs...))
	}
	return c.fail("unknown function %s", e.name)
}

func (c *SpecCtx) typeName(e *Expr) string {
	switch e.op {
	case "str":
		return e.name
	case "un":
		return "*" + c.typeName(e.args[0])
	}
	return e.String()
}

// refOf identifies an object for ghost state: pointers by address, interfaces by value id.
func (c *SpecCtx) refOf(e *Expr) *Term {
	v := c.eval(e)
	if len(v.v.ts) == 0 {
		return NamedVar("unit", SInt)
	}
	if len(v.v.ts) > 1 && len(v.v.ts) == 4 {
		return v.v.ts[0]
	}
	if v.t != nil {
		if _, ok := core(v.t).(*types.Pointer); ok && v.v.loc == nil {
			return v.v.ts[0]
		}
	}
	return identOf(v.v.ts[0])
}

// identOf: an interface holding a pointer is identified by the pointer.
func identOf(t *Term) *Term {
	if bt, args, ok := boxed(t); ok && len(args) == 1 {
		if _, isP := core(bt).(*types.Pointer); isP {
			return args[0]
		}
	}
	return t
}

// sameOrigin: instances of the same generic type (behind the same pointers).
func sameOrigin(a, b types.Type) bool {
	a, b = types.Unalias(a), types.Unalias(b)
	if pa, ok := a.(*types.Pointer); ok {
		pb, ok := b.(*types.Pointer)
		return ok && sameOrigin(pa.Elem(), pb.Elem())
	}
	na, ok1 := a.(*types.Named)
	nb, ok2 := b.(*types.Named)
	return ok1 && ok2 && na.Origin() == nb.Origin() && na.Origin().TypeParams().Len() > 0
}

// atomicElem is T for sync/atomic.Pointer[T] (or a pointer to one).
func atomicElem(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync/atomic" || n.Obj().Name() != "Pointer" || n.TypeArgs().Len() != 1 {
		return nil
	}
	return n.TypeArgs().At(0)
}
