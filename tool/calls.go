package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var allocLike = map[*Term]bool{} // append results: either the old backing (recorded separately) or fresh

type region struct {
	key    string
	ref    *Term // nil: the whole key
	lo, hi *Term // index range for element heaps (nil: everything at ref)
}

func (x *Exec) call(st *State, fr *Frame, in ssa.CallInstruction, cc *ssa.CallCommon, k func(*State, Val)) {
	var args []Val
	var fv Val
	if _, ok := cc.Value.(*ssa.Builtin); !ok && (cc.IsInvoke() || cc.StaticCallee() == nil || isClosureVal(cc.Value)) {
		fv = x.val(st, fr, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, x.val(st, fr, a))
	}
	x.callArgs(st, fr, in, cc, fv, args, k)
}

func isClosureVal(v ssa.Value) bool {
	_, ok := v.(*ssa.MakeClosure)
	return ok
}

func (x *Exec) callArgs(st *State, fr *Frame, in ssa.CallInstruction, cc *ssa.CallCommon, fv Val, args []Val, k func(*State, Val)) {
	pos := in.Pos()
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		x.builtin(st, fr, b.Name(), cc, args, pos, k)
		return
	}
	if cc.IsInvoke() {
		recv := fv.t()
		if _, tp := types.Unalias(cc.Value.Type()).(*types.TypeParam); tp {
			// a value of a type parameter: its zero value is a legal receiver
			x.note("type parameters are instantiated with concrete types whose methods accept every value of the type")
		} else {
			x.oblige(st, "nil", "call of "+cc.Method.Name()+" on nil interface", Ne(recv, Int64(0)), pos)
		}
		if bt, a, ok := boxed(recv); ok {
			if fn := x.w.prog.LookupMethod(bt, cc.Method.Pkg(), cc.Method.Name()); fn != nil {
				x.callFunc(st, fr, fn, nil, append([]Val{{ts: a}}, args...), pos, k)
				return
			}
		}
		x.ifaceCall(st, fr, cc, recv, args, pos, k)
		return
	}
	if fn := cc.StaticCallee(); fn != nil {
		var bind []Val
		if isClosureVal(cc.Value) {
			if c := closures[fv.t()]; c != nil {
				bind = c.bind
			}
		}
		x.callFunc(st, fr, fn, bind, args, pos, k)
		return
	}
	x.callValue(st, fr, fv.t(), cc.Value, cc.Signature(), args, pos, k)
}

// callValue calls a function value.
func (x *Exec) callValue(st *State, fr *Frame, f *Term, src ssa.Value, sig *types.Signature, args []Val, pos token.Pos, k func(*State, Val)) {
	if c := closures[f]; c != nil {
		x.callFunc(st, fr, c.fn, c.bind, args, pos, k)
		return
	}
	if f.op == "ite" {
		x.branch(st, f.args[0], func(s *State) { x.callValue(s, fr, f.args[1], src, sig, args, pos, k) },
			func(s *State) { x.callValue(s, fr, f.args[2], src, sig, args, pos, k) })
		return
	}
	x.oblige(st, "nil", "call of nil function", Ne(f, Int64(0)), pos)
	names := []string{}
	if src != nil {
		names = append(names, funcValueNames(src, fr)...)
	}
	names = append(names, sigName(sig))
	for _, n := range names {
		if c := x.w.db.ftypes[n]; c != nil {
			ats := []types.Type{types.Typ[types.UntypedNil]}
			avs := []Val{one(f)}
			for i := 0; i < sig.Params().Len(); i++ {
				ats = append(ats, sig.Params().At(i).Type())
			}
			avs = append(avs, args...)
			x.applyContract(st, c, n, avs, ats, sig.Results(), x.w.pkgTypes(c.pkg), pos, k)
			return
		}
	}
	nm := "function value"
	if len(names) > 1 {
		nm = names[0]
	}
	x.note("call of unknown function value " + nm + ": arbitrary result, assumed not to change state reachable here")
	k(st, x.freshVal(st, "dyn", sig.Results()))
}

// sigName names an unnamed function type by its parameter and result types: func.Codec, func.int_error.
func sigName(sig *types.Signature) string {
	var ps []string
	add := func(t *types.Tuple) {
		for i := 0; i < t.Len(); i++ {
			ps = append(ps, types.TypeString(t.At(i).Type(), func(*types.Package) string { return "" }))
		}
	}
	add(sig.Params())
	add(sig.Results())
	return "func." + strings.Join(ps, "_")
}

// funcValueNames: contract names for a called function value (field, parameter, named type).
func funcValueNames(v ssa.Value, fr *Frame) (out []string) {
	switch s := v.(type) {
	case *ssa.UnOp:
		if fa, ok := s.X.(*ssa.FieldAddr); ok {
			t := deref(fa.X.Type())
			if st := structOf(t); st != nil {
				out = append(out, stripInst(structKey(t))+"."+st.Field(fa.Field).Name())
			}
		}
	case *ssa.Field:
		if st := structOf(s.X.Type()); st != nil {
			out = append(out, stripInst(structKey(s.X.Type()))+"."+st.Field(s.Field).Name())
		}
	case *ssa.Parameter:
		out = append(out, fr.fn.Name()+"#"+s.Name())
	case *ssa.FreeVar:
		out = append(out, fr.fn.Name()+"#"+s.Name())
	}
	if n, ok := types.Unalias(v.Type()).(*types.Named); ok {
		out = append(out, stripInst(typeKey(n)))
	}
	return
}

func (x *Exec) ifaceCall(st *State, fr *Frame, cc *ssa.CallCommon, recv *Term, args []Val, pos token.Pos, k func(*State, Val)) {
	it := typeKey(cc.Value.Type())
	m := cc.Method.Name()
	c := x.w.ifaceContract(it, m)
	sig := cc.Method.Type().(*types.Signature)
	// use the instantiated signature
	if o := cc.Signature(); o != nil {
		sig = o
	}
	if c == nil {
		x.note("interface method " + stripInst(it) + "." + m + ": arbitrary result, assumed not to change state reachable here")
		k(st, x.freshVal(st, m, sig.Results()))
		return
	}
	ats := []types.Type{cc.Value.Type()}
	for i := 0; i < sig.Params().Len(); i++ {
		ats = append(ats, sig.Params().At(i).Type())
	}
	x.note("interface contract " + c.name + " (assumed of every implementation)")
	x.applyContract(st, c, c.name, append([]Val{one(recv)}, args...), ats, sig.Results(), x.w.pkgTypes(c.pkg), pos, k)
}

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

func (x *Exec) callFunc(st *State, fr *Frame, fn *ssa.Function, bind []Val, args []Val, pos token.Pos, k func(*State, Val)) {
	name := origin(fn).String()
	if x.inInit && (fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")) {
		k(st, Val{})
		return
	}
	if h, ok := natives[name]; ok {
		h(&nctx{x: x, st: st, fr: fr, fn: fn, args: args, pos: pos, k: k})
		return
	}
	if ckey, c := x.w.contractOf(fn); c != nil && !c.inline {
		var ats []types.Type
		for _, p := range fn.Params {
			ats = append(ats, p.Type())
		}
		if len(fn.Params) == 0 && fn.Signature.Params().Len()+boolInt(fn.Signature.Recv() != nil) > 0 {
			ats = sigTypes(fn.Signature)
		}
		x.unit.used[ckey] = true
		x.applyContract(st, c, ckey, args, ats, fn.Signature.Results(), x.w.fnPkg(fn), pos, k)
		return
	}
	if len(fn.Blocks) > 0 && x.w.isRepo(fn) {
		x.inlineCall(st, fr, fn, bind, args, pos, k)
		return
	}
	if c := x.w.externContract(name); c != nil {
		x.note("library function " + name + " (assumed contract)")
		x.applyContract(st, c, name, args, sigTypes(fn.Signature), fn.Signature.Results(), nil, pos, k)
		return
	}
	if len(fn.Blocks) > 0 && fn.Synthetic != "" {
		x.inlineCall(st, fr, fn, bind, args, pos, k)
		return
	}
	x.note("library function " + name + ": arbitrary result, assumed panic-free and not to change state reachable here")
	k(st, x.freshVal(st, fn.Name(), fn.Signature.Results()))
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

func sigTypes(sig *types.Signature) (ts []types.Type) {
	if sig.Recv() != nil {
		ts = append(ts, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ts = append(ts, sig.Params().At(i).Type())
	}
	return
}

func (x *Exec) inlineCall(st *State, fr *Frame, fn *ssa.Function, bind []Val, args []Val, pos token.Pos, k func(*State, Val)) {
	depth := 0
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			depth++
		}
	}
	if depth > 0 || fr != nil && fr.depth > 40 {
		x.bail("recursive call of %s without a contract", fn)
	}
	nf := x.newFrame(fn, fr)
	x.inl[fn]++
	for i, p := range fn.Params {
		x.set(st, nf, p, args[i])
	}
	for i, f := range fn.FreeVars {
		if i < len(bind) {
			x.set(st, nf, f, bind[i])
		}
	}
	nf.ret = func(s *State, v Val) { k(s, v) }
	x.runFrom(st, nf, fn.Blocks[0], 0)
}

// ---------------------------------------------------------------- contracts at call sites

func (x *Exec) specCtx(st, old *State, c *Contract, args []Val, ats []types.Type, pkg *types.Package) *SpecCtx {
	sc := &SpecCtx{x: x, st: st, old: old, names: map[string]SVal{}, pkg: pkg}
	for i, p := range c.params {
		if i < len(args) && p != "_" {
			sc.names[p] = SVal{v: args[i], t: ats[i]}
		}
	}
	return sc
}

func bindResults(sc *SpecCtx, c *Contract, v Val, res *types.Tuple) {
	from := 0
	for i := 0; i < res.Len(); i++ {
		n := len(leaves(res.At(i).Type()))
		sv := SVal{v: Val{ts: v.ts[from : from+n]}, t: res.At(i).Type()}
		if res.Len() == 1 {
			sv.v.loc = v.loc
			sc.names["result"] = sv
		}
		if i < len(c.results) {
			sc.names[c.results[i]] = sv
		}
		from += n
	}
}

func (x *Exec) evalClause(sc *SpecCtx, e *Expr, what string) *Term {
	t, err := sc.tryBool(e)
	if err != nil {
		x.bail("specification %s: %v", what, err)
	}
	return t
}

func needNonNil(t types.Type) bool {
	switch core(t).(type) {
	case *types.Pointer, *types.Signature, *types.Map:
		return true
	case *types.Interface:
		if types.TypeString(t, nil) == "error" {
			return false
		}
		if i := core(t).(*types.Interface); i.NumMethods() == 0 {
			return false
		}
		return true
	}
	return false
}

func (x *Exec) applyContract(st *State, c *Contract, cname string, args []Val, ats []types.Type, res *types.Tuple, pkg *types.Package, pos token.Pos, k func(*State, Val)) {
	sc := x.specCtx(st, nil, c, args, ats, pkg)
	short := cname
	if i := strings.LastIndexByte(short, '/'); i >= 0 {
		short = short[i+1:]
	}
	for i, p := range c.params {
		if i < len(args) && needNonNil(ats[i]) && !c.nilable[p] && args[i].loc == nil && c.kind != "functype" {
			x.oblige(st, "pre", short+" non-nil "+p, Ne(args[i].ts[0], Int64(0)), pos)
		}
	}
	sc.old = x.unit.entry // fresh() in a precondition: allocated by the caller
	for _, cl := range c.requires {
		if !cl.forProp(x.prop) {
			continue
		}
		sc.goal = true
		x.oblige(st, "pre", short+" "+cl.label, x.evalClause(sc, cl.e, cname+" requires"), pos)
		sc.goal = false
	}
	for _, h := range c.holds {
		lk := x.lockOf(sc, h)
		_, ok := st.held[lk]
		x.oblige(st, "pre", short+" holds "+h.String(), BoolT(ok), pos)
	}
	if c.panics != nil {
		p := x.evalClause(sc, c.panics, cname+" panics")
		if x.unit.c != nil && x.unit.c.panics != nil && x.unit.entry != nil {
			x.oblige(st, "panic", "from "+short, Or(Not(p), x.unit.panicCond(x)), pos)
		} else {
			x.oblige(st, "panic", "from "+short, Not(p), pos)
		}
		st.assume(Not(p))
	}
	if c.noret {
		return
	}
	old := st.clone()
	sc.old = old
	// frame
	if c.modAny {
		x.havocAll(st)
	}
	nt := Fresh("top", SInt)
	st.assume(Le(st.top, nt))
	st.top = nt
	if x.unit.c != nil && (mentionsNow(x.unit.c) || mentionsNow(c)) {
		// time may pass during the call
		regHeap("NOW", SInt, nil)
		last := st.get("NOW")
		t := Fresh("now", SInt)
		st.assume(Lt(Int64(0), last), Le(last, t))
		x.recordWrite("NOW", nil, nil)
		st.heap["NOW"] = t
		ck := Fresh("clock", SInt)
		st.assume(Le(last, ck), Le(ck, t))
		sc.names["clock"] = mathv(ck)
	}
	if !c.modAny {
		for _, m := range c.modifies {
			so := *sc
			so.st = old
			for _, r := range x.regions(&so, m) {
				x.havocRegion(st, r)
			}
		}
	}
	rv := x.freshVal(st, shortName(cname), res)
	bindResults(sc, c, rv, res)
	sc.st = st
	x.ghostSets(st, sc, c)
	x.nameHeap(st)
	open := openDefines(c)
	for _, cl := range c.ensures {
		if !cl.forProp(x.prop) || len(open) > 0 && usesName(cl.e, open) {
			continue
		}
		st.assume(x.evalClause(sc, cl.e, cname+" ensures"))
	}
	k(st, rv)
}

// mentionsNow: the contract speaks about the clock.
func mentionsNow(c *Contract) bool {
	n := map[string]bool{"now": true, "clock": true}
	for _, l := range [][]*clause{c.requires, c.ensures, c.loops} {
		for _, cl := range l {
			if usesName(cl.e, n) {
				return true
			}
		}
	}
	return false
}

func shortName(s string) string {
	if i := strings.LastIndexAny(s, "./"); i >= 0 {
		return s[i+1:]
	}
	return s
}

// ghostSets performs the ghost updates of a contract (values read the pre-state through old()).
func (x *Exec) ghostSets(st *State, sc *SpecCtx, c *Contract) {
	type upd struct {
		key string
		ref *Term
		val *Term
	}
	var us []upd
	for _, g := range c.sets {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if s, ok := r.(specErr); ok {
						x.bail("ghost update %s: %s", g.src, s.msg)
					}
					panic(r)
				}
			}()
			ar, ok := x.w.db.ghosts[g.name]
			if !ok {
				sc.fail("unknown ghost %s", g.name)
			}
			sc.ghostHeap(g.name, ar)
			if ar == 0 {
				us = append(us, upd{"G:" + g.name, nil, sc.intOf(g.val)})
				return
			}
			at := sc.refOf(g.at[0])
			if ar == 1 {
				v := sc.eval(g.val).v.ts[0]
				if v.sort == SBool {
					v = Ite(v, Int64(1), Int64(0))
				}
				us = append(us, upd{"G:" + g.name, at, v})
				return
			}
			// function-valued: a fresh row defined pointwise
			row := Fresh("row_"+g.name, ArrOf(SInt))
			n := sc.sub()
			b := BoundVar(g.bind, SInt)
			n.names[g.bind] = mathv(b)
			v := n.intOf(g.val)
			st.assume(mkForall([]*Term{b}, TTrue, Eq(Select(row, b), v), false))
			us = append(us, upd{"G:" + g.name, at, row})
		}()
	}
	for _, u := range us {
		if u.ref == nil {
			x.setHeap(st, u.key, u.val)
		} else {
			x.writeArr(st, u.key, u.ref, u.val)
		}
	}
}

// nameHeap gives a name to the updated fields of the type a unit wants named.
func (x *Exec) nameHeap(st *State) {
	if x.unit == nil || x.unit.c == nil || x.unit.c.named == "" {
		return
	}
	var ks []string
	for k, h := range st.heap {
		for _, n := range strings.Split(x.unit.c.named, ",") {
			if h.op == "store" && strings.Contains(k, "."+strings.TrimSpace(n)+".") {
				ks = append(ks, k)
				break
			}
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		f := Fresh("n_"+k, heapSorts[k])
		setHeapRange(f, k)
		st.assume(Eq(f, st.heap[k]))
		st.heap[k] = f
	}
}

func (x *Exec) havocRegion(st *State, r region) {
	so := heapSorts[r.key]
	if r.ref == nil {
		f := Fresh(r.key, so)
		setHeapRange(f, r.key)
		x.setHeap(st, r.key, f)
		return
	}
	f := Fresh("h_"+r.key, so.elem)
	if l := heapLeaf[r.key]; l != nil && (l.lo != nil || l.hi != nil) {
		f.erLo, f.erHi = l.lo, l.hi
		if f.sort == SInt {
			f.rng, f.lo, f.hi = true, l.lo, l.hi
		}
	}
	if r.lo != nil {
		old := Select(st.get(r.key), r.ref)
		j := BoundVar("j", SInt)
		st.assume(Forall([]*Term{j}, Or(And(Le(r.lo, j), Lt(j, r.hi)), Eq(Select(f, j), Select(old, j))), []*Term{Select(f, j)}))
	}
	x.writeArr(st, r.key, r.ref, f)
}

func (x *Exec) havocAll(st *State) {
	x.allocs++
	ep := fmt.Sprintf("any%d", x.allocs)
	st.epoch = ep
	keep := map[string]bool{}
	for g := range x.w.sentinel {
		keep[globalKey(g)] = true
	}
	for k := range st.heap {
		if !keep[k] {
			delete(st.heap, k)
		}
	}
	for _, r := range x.recs {
		r.epoch = true
	}
}

// regions of a modifies item.
func (x *Exec) regions(sc *SpecCtx, e *Expr) (out []region) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				x.bail("modifies %s: %s", e, s.msg)
			}
			panic(r)
		}
	}()
	switch e.op {
	case "field":
		b := sc.eval(e.args[0])
		if b.pkg != nil {
			o := b.pkg.Scope().Lookup(e.name)
			if q := x.w.pkgByName[b.pkg.Name()]; o == nil && q != nil {
				o = q.Scope().Lookup(e.name)
			}
			return x.globalRegions(o)
		}
		p := deref(b.t)
		if p == nil {
			sc.fail("modifies needs a pointer")
		}
		if e.name == "*" {
			return x.aggRegions(b.v.ts[0], p)
		}
		path := fieldPath(p, e.name)
		if path == nil {
			sc.fail("no field %s", e.name)
		}
		ref, cur := b.v.ts[0], p
		for k, i := range path {
			s := structOf(cur)
			f := s.Field(i)
			if k == len(path)-1 {
				return x.fieldRegions(ref, cur, i)
			}
			if isAgg(f.Type()) {
				ref = Add(ref, Int64(slotOf(s, i)))
				cur = f.Type()
				continue
			}
			v := x.load(sc.st, x.fieldAddr(sc.st, one(ref), cur, i), f.Type())
			ref, cur = v.t(), deref(f.Type())
		}
	case "call":
		if ms, ok := x.w.db.modsets[e.name]; ok {
			n := sc.sub()
			for i, p := range ms.params {
				n.names[p] = sc.eval(e.args[i])
			}
			for _, it := range ms.items {
				out = append(out, x.regions(n, it)...)
			}
			return out
		}
		if ar, ok := x.w.db.ghosts[e.name]; ok {
			sc.ghostHeap(e.name, ar)
			if ar == 0 || len(e.args) == 0 {
				return []region{{key: "G:" + e.name}}
			}
			return []region{{key: "G:" + e.name, ref: sc.refOf(e.args[0])}}
		}
		switch e.name {
		case "elems", "elemscap", "allelems":
			v := sc.eval(e.args[0])
			if p := deref(v.t); p != nil {
				return x.aggRegions(v.v.ts[0], p)
			}
			sl, ok := core(v.t).(*types.Slice)
			if !ok {
				sc.fail("elems of non-slice")
			}
			n := v.v.ts[2]
			if e.name == "elemscap" {
				n = v.v.ts[3]
			}
			for _, l := range leaves(sl.Elem()) {
				k, so := elemHeap(sl.Elem(), l)
				regHeap(k, so, l)
				r := region{key: k, ref: v.v.ts[0], lo: v.v.ts[1], hi: Add(v.v.ts[1], n)}
				if e.name == "allelems" {
					r.lo, r.hi = nil, nil
				}
				out = append(out, r)
			}
			return out
		case "mapof":
			v := sc.eval(e.args[0])
			mt, ok := core(v.t).(*types.Map)
			if !ok {
				sc.fail("mapof non-map")
			}
			d, vs, ln := mapKeys(mt)
			for _, k := range append(append([]string{}, vs...), d, ln) {
				out = append(out, region{key: k, ref: v.v.ts[0]})
			}
			return out
		case "every": // every("pkg.T", f): field f of every object of the type
			t := sc.typeByName(sc.typeName(e.args[0]))
			s := structOf(t)
			for i := 0; i < s.NumFields(); i++ {
				if e.args[1].name == "*" || s.Field(i).Name() == e.args[1].String() {
					for _, r := range x.fieldRegions(Int64(0), t, i) {
						r.ref = nil
						out = append(out, r)
						for key := range heapSorts { // instances of a generic type
							if key != r.key && stripInst(key) == stripInst(r.key) {
								out = append(out, region{key: key})
							}
						}
					}
				}
			}
			return out
		}
		if d, ok := x.w.db.defs[e.name]; ok {
			_ = d
		}
	case "ident":
		if o := sc.pkg.Scope().Lookup(e.name); o != nil {
			return x.globalRegions(o)
		}
	case "un":
		if e.name == "*" {
			v := sc.eval(e.args[0])
			p := deref(v.t)
			if v.v.loc == nil && v.v.ts[0].isInt() && v.v.ts[0].ival.Sign() == 0 {
				return nil // no object
			}
			if isAgg(p) {
				return x.aggRegions(v.v.ts[0], p)
			}
			for _, l := range leaves(p) {
				k := cKey(p) + l.name
				regHeap(k, ArrOf(l.sort), l)
				out = append(out, region{key: k, ref: v.v.ts[0]})
			}
			return out
		}
	}
	sc.fail("unsupported modifies item")
	return
}

func (x *Exec) globalRegions(o types.Object) (out []region) {
	v, ok := o.(*types.Var)
	if !ok {
		panic(specErr{"not a variable"})
	}
	g := x.w.global(v)
	if isAgg(v.Type()) {
		return x.aggRegions(x.w.globalRef(g), v.Type())
	}
	for _, l := range leaves(v.Type()) {
		k := globalKey(g) + l.name
		regHeap(k, l.sort, l)
		out = append(out, region{key: k})
	}
	return
}

func (x *Exec) fieldRegions(ref *Term, t types.Type, i int) (out []region) {
	s := structOf(t)
	f := s.Field(i)
	if isAgg(f.Type()) {
		return x.aggRegions(Add(ref, Int64(slotOf(s, i))), f.Type())
	}
	for _, l := range leaves(f.Type()) {
		k, so := fieldHeap(t, f.Name(), l)
		regHeap(k, so, l)
		out = append(out, region{key: k, ref: ref})
	}
	return
}

func (x *Exec) aggRegions(ref *Term, t types.Type) (out []region) {
	if s := structOf(t); s != nil {
		for i := 0; i < s.NumFields(); i++ {
			out = append(out, x.fieldRegions(ref, t, i)...)
		}
		return
	}
	a := core(t).(*types.Array)
	for _, l := range leaves(a.Elem()) {
		k, so := elemHeap(a.Elem(), l)
		regHeap(k, so, l)
		out = append(out, region{key: k, ref: ref})
	}
	return
}

// lockOf names the mutex denoted by a specification expression such as b.mu.
func (x *Exec) lockOf(sc *SpecCtx, e *Expr) string {
	if e.op != "field" {
		x.bail("holds %s: expected obj.mutex", e)
	}
	var name string
	func() {
		defer func() {
			if r := recover(); r != nil {
				if s, ok := r.(specErr); ok {
					x.bail("holds %s: %s", e, s.msg)
				}
				panic(r)
			}
		}()
		b := sc.eval(e.args[0])
		t := deref(b.t)
		name = lockName(stripInst(structKey(t))+"."+e.name, b.v.ts[0])
	}()
	return name
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(st *State, fr *Frame, name string, cc *ssa.CallCommon, args []Val, pos token.Pos, k func(*State, Val)) {
	switch name {
	case "len":
		t := cc.Args[0].Type()
		switch u := core(t).(type) {
		case *types.Slice:
			k(st, one(args[0].ts[2]))
		case *types.Basic:
			k(st, one(x.strlen(st, args[0].t())))
		case *types.Map:
			_, _, ln := mapKeys(u)
			m := args[0].t()
			k(st, one(Ite(Eq(m, Int64(0)), Int64(0), Select(st.get(ln), m))))
		case *types.Array:
			k(st, one(Int64(u.Len())))
		case *types.Pointer:
			k(st, one(Int64(core(u.Elem()).(*types.Array).Len())))
		default:
			if c, owner := x.chanContract("len", cc.Args[0]); c != nil && owner != nil {
				x.note("channel contract " + c.name + " (assumed)")
				res := types.NewTuple(types.NewVar(0, nil, "n", types.Typ[types.Int]))
				x.applyContract(st, c, c.name, []Val{x.val(st, fr, owner), args[0]}, []types.Type{owner.Type(), t}, res, x.w.pkgTypes(c.pkg), pos, k)
				return
			}
			v := x.freshVal(st, "len", types.Typ[types.Int])
			st.assume(Le(Int64(0), v.t()))
			k(st, v)
		}
	case "cap":
		t := cc.Args[0].Type()
		switch u := core(t).(type) {
		case *types.Slice:
			k(st, one(args[0].ts[3]))
		case *types.Array:
			k(st, one(Int64(u.Len())))
		case *types.Pointer:
			k(st, one(Int64(core(u.Elem()).(*types.Array).Len())))
		default:
			regHeap("CHCAP", ArrOf(SInt), nil)
			k(st, one(Select(st.get("CHCAP"), args[0].t())))
		}
	case "append":
		var src Val
		et := core(cc.Args[0].Type()).(*types.Slice).Elem()
		if len(args) < 2 {
			k(st, args[0])
			return
		}
		src = args[1]
		if b, ok := core(cc.Args[1].Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := args[1].t()
			L := x.strlen(st, s)
			arr := App("strbytes", ArrOf(SInt), s)
			r := x.newBacking(st, "bytes", et, []*Term{arr})
			src = Val{ts: []*Term{r, Int64(0), L, L}}
		}
		k(st, x.appendSlice(st, args[0], src, et))
	case "copy":
		et := core(cc.Args[0].Type()).(*types.Slice).Elem()
		src := args[1]
		if b, ok := core(cc.Args[1].Type()).(*types.Basic); ok && b.Info()&types.IsString != 0 {
			s := args[1].t()
			L := x.strlen(st, s)
			i := BoundVar("i", SInt)
			arr := App("strbytes", ArrOf(SInt), s)
			st.assume(Forall([]*Term{i}, Imp(And(Le(Int64(0), i), Lt(i, L)), Eq(Select(arr, i), App("strat", SInt, s, i))), []*Term{Select(arr, i)}))
			r := x.newBacking(st, "bytes", et, []*Term{arr})
			src = Val{ts: []*Term{r, Int64(0), L, L}}
		}
		k(st, one(x.copySlice(st, args[0], src, et)))
	case "delete":
		mt := core(cc.Args[0].Type()).(*types.Map)
		x.mapDelete(st, args[0].t(), mt, args[1])
		k(st, Val{})
	case "clear":
		if mt, ok := core(cc.Args[0].Type()).(*types.Map); ok {
			x.initMap(st, args[0].t(), mt)
			k(st, Val{})
			return
		}
		x.bail("clear of slice")
	case "min", "max":
		t := args[0].t()
		for _, a := range args[1:] {
			if name == "min" {
				t = Ite(Le(t, a.t()), t, a.t())
			} else {
				t = Ite(Le(t, a.t()), a.t(), t)
			}
		}
		k(st, one(t))
	case "close":
		x.chanOp(st, fr, "close", cc.Args[0], nil, nil, pos)
		k(st, Val{})
	case "print", "println":
		k(st, Val{})
	case "ssa:wrapnilchk":
		x.nilCheck(st, args[0].ts[0], "method value", pos)
		k(st, args[0])
	case "recover":
		k(st, one(Int64(0)))
	case "String", "SliceData", "StringData", "Slice", "Add":
		x.note("unsafe." + name + " is treated as an arbitrary value")
		k(st, x.freshVal(st, name, cc.Signature().Results().At(0).Type()))
	default:
		x.bail("builtin %s", name)
	}
}

// constLen returns a small literal length.
func constLen(t *Term, max int64) (int64, bool) {
	if t.isInt() && t.ival.IsInt64() && t.ival.Int64() >= 0 && t.ival.Int64() <= max {
		return t.ival.Int64(), true
	}
	return 0, false
}

func (x *Exec) appendSlice(st *State, s, src Val, et types.Type) Val {
	arr, off, ln, cp := s.ts[0], s.ts[1], s.ts[2], s.ts[3]
	n := src.ts[2]
	if n.isInt() && n.ival.Sign() == 0 {
		return s
	}
	total := Add(ln, n)
	st.assume(Le(Add(off, total), IntBig(maxLen)))
	fits := Le(total, cp)
	// new contents per leaf
	ls := leaves(et)
	var inner []*Term
	for _, l := range ls {
		key, so := elemHeap(et, l)
		regHeap(key, so, l)
		h := st.get(key)
		old := Select(h, arr)
		if c, ok := constLen(n, 16); ok {
			v := old
			sa := Select(h, src.ts[0])
			for i := int64(0); i < c; i++ {
				v = Store(v, Add(off, ln, Int64(i)), Select(sa, Add(src.ts[1], Int64(i))))
			}
			inner = append(inner, v)
			continue
		}
		f := Fresh("app", ArrOf(l.sort))
		f.erLo, f.erHi = l.lo, l.hi
		j := BoundVar("j", SInt)
		start := Add(off, ln)
		sa := Select(h, src.ts[0])
		st.assume(Forall([]*Term{j}, Eq(Select(f, j), Ite(And(Le(start, j), Lt(j, Add(start, n))), Select(sa, Add(src.ts[1], Sub(j, start))), Select(old, j))), []*Term{Select(f, j)}))
		// also trigger from the source side
		if cleanPat(sa) {
			i := BoundVar("i", SInt)
			st.assume(Forall([]*Term{i}, Imp(And(Le(src.ts[1], i), Lt(i, Add(src.ts[1], n))), Eq(Select(f, Add(start, Sub(i, src.ts[1]))), Select(sa, i))), []*Term{Select(sa, i)}))
		}
		inner = append(inner, f)
	}
	inPlace := x.proves(st, fits, 150)
	if inPlace {
		for i, l := range ls {
			key, _ := elemHeap(et, l)
			x.writeArr(st, key, arr, inner[i])
		}
		return Val{ts: []*Term{arr, off, total, cp}}
	}
	grows := x.proves(st, Not(fits), 150)
	ncap := Fresh("cap", SInt)
	ncap.rng, ncap.lo, ncap.hi = true, new(big.Int), maxLen
	if grows {
		r := x.freshAlloc(st, "append", 1)
		for i, l := range ls {
			key, _ := elemHeap(et, l)
			x.writeArr(st, key, r, inner[i])
		}
		st.assume(Le(total, ncap), Le(Add(off, ncap), IntBig(maxLen)))
		return Val{ts: []*Term{r, off, total, ncap}}
	}
	// undecided: one symbolic result covering both cases
	r := Fresh("app_arr", SInt)
	allocLike[r] = true
	r.rng, r.lo = true, bigOne
	st.assume(Imp(fits, And(Eq(r, arr), Eq(ncap, cp))))
	st.assume(Imp(Not(fits), And(Lt(st.top, r), Le(total, ncap), Le(Add(off, ncap), IntBig(maxLen)))))
	nt := Fresh("top", SInt)
	st.assume(Le(st.top, nt), Le(r, nt))
	st.top = nt
	for i, l := range ls {
		key, _ := elemHeap(et, l)
		x.recordWrite(key, arr, nil)
		x.writeArr(st, key, r, inner[i])
	}
	st.assume(Le(total, ncap))
	return Val{ts: []*Term{r, off, total, ncap}}
}

func (x *Exec) copySlice(st *State, dst, src Val, et types.Type) *Term {
	n := Ite(Le(dst.ts[2], src.ts[2]), dst.ts[2], src.ts[2])
	if n.op == "ite" {
		if x.proves(st, Le(dst.ts[2], src.ts[2]), 200) {
			n = dst.ts[2]
		} else if x.proves(st, Le(src.ts[2], dst.ts[2]), 200) {
			n = src.ts[2]
		}
	}
	if n.isInt() && n.ival.Sign() == 0 {
		return n
	}
	x.bulkCopy(st, dst.ts[0], dst.ts[1], src.ts[0], src.ts[1], n, et)
	return n
}

// bulkCopy: dst[doff+i] = src[soff+i] for i<n, everything else unchanged (memmove semantics).
func (x *Exec) bulkCopy(st *State, dref, doff, sref, soff, n *Term, et types.Type) {
	for _, l := range leaves(et) {
		key, so := elemHeap(et, l)
		regHeap(key, so, l)
		h := st.get(key)
		old, sa := Select(h, dref), Select(h, sref)
		if c, ok := constLen(n, 16); ok {
			v := old
			for i := int64(0); i < c; i++ {
				v = Store(v, Add(doff, Int64(i)), Select(sa, Add(soff, Int64(i))))
			}
			x.writeArr(st, key, dref, v)
			continue
		}
		f := Fresh("copied", ArrOf(l.sort))
		f.erLo, f.erHi = l.lo, l.hi
		j := BoundVar("j", SInt)
		st.assume(Forall([]*Term{j}, Eq(Select(f, j), Ite(And(Le(doff, j), Lt(j, Add(doff, n))), Select(sa, Add(soff, Sub(j, doff))), Select(old, j))), []*Term{Select(f, j)}))
		if cleanPat(sa) {
			i := BoundVar("i", SInt)
			st.assume(Forall([]*Term{i}, Imp(And(Le(soff, i), Lt(i, Add(soff, n))), Eq(Select(f, Add(doff, Sub(i, soff))), Select(sa, i))), []*Term{Select(sa, i)}))
		}
		x.writeArr(st, key, dref, f)
	}
}
