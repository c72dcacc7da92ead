package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

// wrap reduces a mathematical integer to the Go type's range; the reduction
// disappears when the value is provably in range.
func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	b, ok := core(typ).(*types.Basic)
	if !ok {
		return t
	}
	bits, sg, ok := intRange(b)
	if !ok {
		return t
	}
	return x.wrapBits(st, t, bits, sg)
}

func (x *Exec) wrapBits(st *State, t *Term, bits int, sg bool) *Term {
	lo, hi := bounds(bits, sg)
	if inRange(t, lo, hi) {
		return t
	}
	if t.op == "ite" && (inRange(t.args[1], lo, hi) || inRange(t.args[2], lo, hi)) {
		return Ite(t.args[0], x.wrapBits(st, t.args[1], bits, sg), x.wrapBits(st, t.args[2], bits, sg))
	}
	if x.absmul() && t.op == "*" && t.sort == SInt && !t.args[0].isInt() && !t.args[1].isInt() {
		r := App(fmt.Sprintf("g.mul:%d:%v", bits, sg), SInt, t.args...)
		r.rng, r.lo, r.hi = true, lo, hi
		return r
	}
	if nonlinear(t) {
		return wrapTerm(t, bits, sg)
	}
	if st != nil && !t.bound && x.proves(st, And(Le(IntBig(lo), t), Le(t, IntBig(hi))), 400) {
		return t
	}
	return wrapTerm(t, bits, sg)
}

func constReal(t *Term) bool { return t.op == "real" || t.op == "to_real" && t.args[0].isInt() || len(t.args) == 0 && t.op != "var" }

func realMul(a, b *Term) *Term {
	if a.id > b.id {
		a, b = b, a
	}
	return App("g.rmul", SReal, a, b)
}

func (x *Exec) absmul() bool { return x.unit != nil && x.unit.c != nil && x.unit.c.absmul }

// nonlinear reports whether t is a sum with a product of variables; range questions about those are left to the
// final obligations, so that the code and its specification build the same terms.
func nonlinear(t *Term) bool {
	switch t.op {
	case "*":
		return t.sort == SInt && !t.args[0].isInt() && !t.args[1].isInt() || nonlinear(t.args[0]) || nonlinear(t.args[1])
	case "+":
		for _, a := range t.args {
			if nonlinear(a) {
				return true
			}
		}
	}
	return false
}

func inRange(t *Term, lo, hi *big.Int) bool {
	l, h := t.interval()
	return l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0
}

func wrapTerm(t *Term, bits int, sg bool) *Term {
	m := IntBig(pow2(bits))
	if !sg {
		return Mod(t, m)
	}
	h := IntBig(pow2(bits - 1))
	return Sub(Mod(Add(t, h), m), h)
}

func isUnsigned(t types.Type) bool {
	b, ok := core(t).(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (x *Exec) nonneg(st *State, t *Term) bool {
	lo, _ := t.interval()
	if lo != nil && lo.Sign() >= 0 {
		return true
	}
	return x.proves(st, Le(Int64(0), t), 200)
}

func (x *Exec) quo(st *State, a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival.Sign() != 0 {
		return IntBig(new(big.Int).Quo(a.ival, b.ival))
	}
	if x.absmul() && !b.isInt() {
		return App("g.quo", SInt, a, b)
	}
	an, bn := x.nonneg(st, a), x.nonneg(st, b)
	switch {
	case an && bn:
		return Div(a, b)
	case bn:
		return Ite(Le(Int64(0), a), Div(a, b), Neg(Div(Neg(a), b)))
	case an:
		return Ite(Le(Int64(0), b), Div(a, b), Neg(Div(a, Neg(b))))
	}
	abs := func(t *Term) *Term { return Ite(Le(Int64(0), t), t, Neg(t)) }
	q := Div(abs(a), abs(b))
	return Ite(Eq(Le(Int64(0), a), Le(Int64(0), b)), q, Neg(q))
}

func (x *Exec) rem(st *State, a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival.Sign() != 0 {
		return IntBig(new(big.Int).Rem(a.ival, b.ival))
	}
	if x.absmul() && !b.isInt() {
		r := App("g.rem", SInt, a, b)
		if !a.bound && !b.bound {
			st.assume(Imp(And(Le(Int64(0), a), Lt(Int64(0), b)), And(Le(Int64(0), r), Lt(r, b))))
			st.assume(Imp(And(Le(Int64(0), a), Lt(a, b)), Eq(r, a)))
			st.assume(Imp(And(Le(b, a), Lt(a, Add(b, b)), Lt(Int64(0), b)), Eq(r, Sub(a, b))))
		}
		return r
	}
	an, bn := x.nonneg(st, a), x.nonneg(st, b)
	if an && bn {
		if b.isInt() {
			return Mod(a, b)
		}
		// variable modulus: name the remainder and give the linear cases
		r := App("g.rem", SInt, a, b)
		st.assume(Imp(Lt(Int64(0), b), And(Le(Int64(0), r), Lt(r, b))))
		st.assume(Imp(And(Le(Int64(0), a), Lt(a, b)), Eq(r, a)))
		st.assume(Imp(And(Le(b, a), Lt(a, Add(b, b))), Eq(r, Sub(a, b))))
		q := App("g.quot", SInt, a, b)
		st.assume(Imp(And(Lt(Int64(0), b), Le(Int64(0), a)), And(Le(Int64(0), q), Eq(a, Add(Mul(b, q), r)))))
		return r
	}
	if bn && b.isInt() {
		return Ite(Le(Int64(0), a), Mod(a, b), Neg(Mod(Neg(a), b)))
	}
	return Sub(a, Mul(b, x.quo(st, a, b)))
}

// bitAnd of x with a non-negative constant mask: runs of ones, exact for two's complement.
func bitAndConst(a *Term, c *big.Int) *Term {
	if c.Sign() == 0 {
		return Int64(0)
	}
	if c.Sign() < 0 { // a & c = a - (a & ^c)
		return Sub(a, bitAndConst(a, new(big.Int).Not(c)))
	}
	var parts []*Term
	n := c.BitLen()
	for i := 0; i < n; {
		if c.Bit(i) == 0 {
			i++
			continue
		}
		j := i
		for j < n && c.Bit(j) == 1 {
			j++
		}
		p := Mod(Div(a, IntBig(pow2(i))), IntBig(pow2(j-i)))
		parts = append(parts, Mul(IntBig(pow2(i)), p))
		i = j
	}
	return Add(parts...)
}

// divisiblePow2: largest k such that the term is syntactically a multiple of 2^k.
func divisiblePow2(t *Term) int {
	l := newLin()
	l.addTerm(t, bigOne)
	k := 1 << 20
	if l.c.Sign() != 0 {
		k = int(l.c.TrailingZeroBits())
	}
	for a, c := range l.co {
		n := int(c.TrailingZeroBits())
		if a.op == "ite" {
			m1, m2 := divisiblePow2(a.args[1]), divisiblePow2(a.args[2])
			if m2 < m1 {
				m1 = m2
			}
			if m1 < 1<<19 {
				n += m1
			} else {
				n = 1 << 20
			}
		}
		if a.op == "mod" && a.args[1].isInt() {
			m1 := divisiblePow2(a.args[0])
			m2 := int(a.args[1].ival.TrailingZeroBits())
			if m2 < m1 {
				m1 = m2
			}
			n += m1
		}
		if n < k {
			k = n
		}
	}
	return k
}

func (x *Exec) bitOr(st *State, a, b *Term, bits int) *Term {
	if a.isInt() && b.isInt() {
		return IntBig(new(big.Int).Or(a.ival, b.ival))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		return Add(a, Sub(b, bitAndConst(a, b.ival)))
	}
	for i := 0; i < 2; i++ {
		k := divisiblePow2(a)
		lo, hi := b.interval()
		if k > 0 && lo != nil && hi != nil && lo.Sign() >= 0 && hi.BitLen() <= k {
			return Add(a, b)
		}
		a, b = b, a
	}
	// a | b = a + b - (a & b)
	return Sub(Add(a, b), x.bitAnd(st, a, b, bits))
}

func (x *Exec) bitAnd(st *State, a, b *Term, bits int) *Term {
	if a.isInt() && b.isInt() {
		return IntBig(new(big.Int).And(a.ival, b.ival))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() {
		return bitAndConst(a, b.ival)
	}
	if bits <= 16 {
		var parts []*Term
		m := IntBig(pow2(1))
		for i := 0; i < bits; i++ {
			p := IntBig(pow2(i))
			ba, bb := Mod(Div(a, p), m), Mod(Div(b, p), m)
			parts = append(parts, Mul(p, Ite(And(Eq(ba, Int64(1)), Eq(bb, Int64(1))), Int64(1), Int64(0))))
		}
		return Add(parts...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	r := App("band", SInt, a, b)
	if a.bound || b.bound {
		return r
	}
	st.assume(Imp(Le(Int64(0), a), And(Le(Int64(0), r), Le(r, a))), Imp(Le(Int64(0), b), And(Le(Int64(0), r), Le(r, b))))
	return r
}

func (x *Exec) bitXor(st *State, a, b *Term, bits int) *Term {
	if a.isInt() && b.isInt() {
		return IntBig(new(big.Int).Xor(a.ival, b.ival))
	}
	if a.isInt() {
		a, b = b, a
	}
	if b.isInt() && b.ival.Sign() < 0 {
		// a ^ c = ^(a ^ ^c) = -1 - (a ^ ^c)
		return Sub(Int64(-1), x.bitXor(st, a, IntBig(new(big.Int).Not(b.ival)), bits))
	}
	and := x.bitAnd(st, a, b, bits)
	return Sub(Add(a, b), Mul(Int64(2), and))
}

// shifts by a variable amount become a case distinction over the possible amounts.
func (x *Exec) shift(st *State, left bool, a, k *Term, typ types.Type, kt types.Type, pos token.Pos) *Term {
	b := core(typ).(*types.Basic)
	bits, sg, _ := intRange(b)
	if !isUnsigned(kt) {
		x.oblige(st, "shift", "negative shift", Le(Int64(0), k), pos)
	}
	one := func(n int) *Term {
		if n >= bits {
			if left {
				return Int64(0)
			}
			if sg {
				return Ite(Lt(a, Int64(0)), Int64(-1), Int64(0))
			}
			return Int64(0)
		}
		if left {
			return x.wrapBits(st, Mul(a, IntBig(pow2(n))), bits, sg)
		}
		return Div(a, IntBig(pow2(n)))
	}
	if k.isInt() {
		if !k.ival.IsInt64() || k.ival.Int64() >= int64(bits) {
			return one(bits)
		}
		return one(int(k.ival.Int64()))
	}
	lo, hi := k.interval()
	l, h := 0, bits
	if lo != nil && lo.IsInt64() && lo.Int64() > 0 {
		l = int(lo.Int64())
	}
	if hi != nil && hi.IsInt64() && hi.Int64() < int64(bits) {
		h = int(hi.Int64())
	}
	r := one(h)
	for n := h - 1; n >= l; n-- {
		r = Ite(Eq(k, Int64(int64(n))), one(n), r)
	}
	return r
}

func (x *Exec) binop(st *State, op token.Token, av, bv Val, at, bt, rt types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := x.equal(st, av, bv, at, bt)
		if op == token.NEQ {
			e = Not(e)
		}
		return one(e)
	}
	a, b := av.t(), bv.t()
	bas, _ := core(at).(*types.Basic)
	if bas != nil && bas.Info()&types.IsString != 0 {
		switch op {
		case token.ADD:
			return one(x.strcat(st, a, b))
		case token.LSS:
			return one(App("strlt", SBool, a, b))
		case token.GTR:
			return one(App("strlt", SBool, b, a))
		case token.LEQ:
			return one(Not(App("strlt", SBool, b, a)))
		case token.GEQ:
			return one(Not(App("strlt", SBool, a, b)))
		}
	}
	if a.sort == SReal && x.absmul() && !constReal(a) && !constReal(b) {
		switch op {
		case token.MUL:
			return one(realMul(a, b))
		case token.QUO:
			return one(App("g.rdiv", SReal, a, b))
		}
	}
	if a.sort == SReal {
		x.note("floating point is treated as exact real arithmetic")
		switch op {
		case token.ADD:
			return one(Add(a, b))
		case token.SUB:
			return one(Sub(a, b))
		case token.MUL:
			return one(Mul(a, b))
		case token.QUO:
			return one(intern(&Term{op: "/", sort: SReal, args: []*Term{a, b}}))
		}
	}
	switch op {
	case token.LSS:
		return one(Lt(a, b))
	case token.LEQ:
		return one(Le(a, b))
	case token.GTR:
		return one(Gt(a, b))
	case token.GEQ:
		return one(Ge(a, b))
	case token.ADD:
		return one(x.wrap(st, Add(a, b), rt))
	case token.SUB:
		return one(x.wrap(st, Sub(a, b), rt))
	case token.MUL:
		return one(x.wrap(st, Mul(a, b), rt))
	case token.QUO:
		x.oblige(st, "div", "division by zero", Ne(b, Int64(0)), pos)
		return one(x.wrap(st, x.quo(st, a, b), rt))
	case token.REM:
		x.oblige(st, "div", "division by zero", Ne(b, Int64(0)), pos)
		return one(x.rem(st, a, b))
	}
	bits := 64
	if bas != nil {
		bits, _, _ = intRange(bas)
	}
	switch op {
	case token.AND:
		if a.sort == SBool {
			return one(And(a, b))
		}
		return one(x.wrap(st, x.bitAnd(st, a, b, bits), rt))
	case token.OR:
		if a.sort == SBool {
			return one(Or(a, b))
		}
		return one(x.wrap(st, x.bitOr(st, a, b, bits), rt))
	case token.XOR:
		return one(x.wrap(st, x.bitXor(st, a, b, bits), rt))
	case token.AND_NOT:
		return one(x.wrap(st, Sub(a, x.bitAnd(st, a, b, bits)), rt))
	case token.SHL:
		return one(x.shift(st, true, a, b, at, bt, pos))
	case token.SHR:
		return one(x.shift(st, false, a, b, at, bt, pos))
	}
	x.bail("binop %s", op)
	return Val{}
}

func (x *Exec) equal(st *State, a, b Val, at, bt types.Type) *Term {
	// interface vs concrete
	if types.IsInterface(at) != types.IsInterface(bt) {
		if types.IsInterface(at) {
			if len(b.ts) >= 1 && isNilVal(b, bt) {
				return Eq(a.t(), Int64(0))
			}
			return Eq(a.t(), x.box(st, b, bt))
		}
		return x.equal(st, b, a, bt, at)
	}
	switch core(at).(type) {
	case *types.Slice: // only nil comparisons
		if isNilVal(b, bt) {
			return Eq(a.ts[0], Int64(0))
		}
		return Eq(b.ts[0], Int64(0))
	case *types.Map, *types.Signature, *types.Pointer, *types.Chan:
		return Eq(a.ts[0], b.ts[0])
	}
	var cs []*Term
	for i := range a.ts {
		if a.ts[i].sort.elem != nil {
			arr, ok := core(at).(*types.Array)
			if !ok || arr.Len() > 64 {
				x.bail("comparison of arrays in %s", at)
			}
			for k := int64(0); k < arr.Len(); k++ {
				cs = append(cs, Eq(Select(a.ts[i], Int64(k)), Select(b.ts[i], Int64(k))))
			}
			continue
		}
		cs = append(cs, Eq(a.ts[i], b.ts[i]))
	}
	return And(cs...)
}

func isNilVal(v Val, t types.Type) bool {
	for _, c := range v.ts {
		if !(c.isInt() && c.ival.Sign() == 0) {
			return false
		}
	}
	return true
}

func (x *Exec) convert(st *State, v Val, from, to types.Type, pos token.Pos) Val {
	fu, tu := core(from), core(to)
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if tb != nil && tb.Kind() == types.UnsafePointer {
		return v // the address, with its location
	}
	if fb != nil && tb != nil {
		_, _, fi := intRange(fb)
		_, _, ti := intRange(tb)
		switch {
		case fi && ti:
			return one(x.wrap(st, v.t(), to))
		case fi && tb.Info()&types.IsFloat != 0:
			if v.t().isInt() {
				s := v.t().ival.String()
				if s[0] == '-' {
					return one(RealConst("(- " + s[1:] + ".0)"))
				}
				return one(RealConst(s + ".0"))
			}
			return one(intern(&Term{op: "to_real", sort: SReal, args: []*Term{v.t()}}))
		case fb.Info()&types.IsFloat != 0 && ti:
			r := App("trunc:"+tb.Name(), SInt, v.t())
			bits, sg, _ := intRange(tb)
			r.rng = true
			r.lo, r.hi = bounds(bits, sg)
			x.note("float to integer conversion is an arbitrary value of the target type")
			return one(r)
		case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
			return v
		case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
			return v
		case fi && tb.Info()&types.IsString != 0:
			return one(App("runestr", SInt, v.t()))
		}
		return v
	}
	if fb != nil && fb.Info()&types.IsString != 0 {
		if sl, ok := tu.(*types.Slice); ok { // []byte(s)
			k, so := elemHeap(sl.Elem(), leaves(sl.Elem())[0])
			regHeap(k, so, leaves(sl.Elem())[0])
			s := v.t()
			L := x.strlen(st, s)
			arr := App("strbytes", ArrOf(SInt), s)
			arr.erLo, arr.erHi = leaves(sl.Elem())[0].lo, leaves(sl.Elem())[0].hi
			i := BoundVar("i", SInt)
			st.assume(Forall([]*Term{i}, Imp(And(Le(Int64(0), i), Lt(i, L)), Eq(Select(arr, i), App("strat", SInt, s, i))), []*Term{Select(arr, i)}))
			r := x.newBacking(st, "bytes", sl.Elem(), []*Term{arr})
			return Val{ts: []*Term{r, Int64(0), L, L}}
		}
	}
	if tb != nil && tb.Info()&types.IsString != 0 {
		if sl, ok := fu.(*types.Slice); ok { // string(b)
			k, so := elemHeap(sl.Elem(), leaves(sl.Elem())[0])
			regHeap(k, so, leaves(sl.Elem())[0])
			arr := Select(st.get(k), v.ts[0])
			return one(x.bytesToStr(st, arr, v.ts[1], v.ts[2]))
		}
	}
	return v
}

// ---------------------------------------------------------------- strings

func (x *Exec) bytesToStr(st *State, arr, off, ln *Term) *Term {
	s := App("bstr", SInt, arr, off, ln)
	st.assume(Eq(App("strlen", SInt, s), ln))
	i := BoundVar("i", SInt)
	at := App("strat", SInt, s, i)
	st.assume(Forall([]*Term{i}, Imp(And(Le(Int64(0), i), Lt(i, ln)), Eq(at, Select(arr, Add(off, i)))), []*Term{at}))
	return s
}

func (x *Exec) strlen(st *State, s *Term) *Term {
	if c, ok := x.w.strOf(s); ok {
		return Int64(int64(len(c)))
	}
	t := App("strlen", SInt, s)
	if !t.rng {
		t.rng, t.lo, t.hi = true, new(big.Int), maxLen
	}
	return t
}

func (x *Exec) strat(st *State, s, i *Term) *Term {
	if c, ok := x.w.strOf(s); ok {
		if i.isInt() && i.ival.IsInt64() && i.ival.Int64() >= 0 && i.ival.Int64() < int64(len(c)) {
			return Int64(int64(c[i.ival.Int64()]))
		}
		if len(c) <= 64 && len(c) > 0 {
			r := Int64(int64(c[len(c)-1]))
			for k := len(c) - 2; k >= 0; k-- {
				r = Ite(Eq(i, Int64(int64(k))), Int64(int64(c[k])), r)
			}
			return r
		}
	}
	t := App("strat", SInt, s, i)
	if !t.rng {
		t.rng, t.lo, t.hi = true, new(big.Int), big.NewInt(255)
	}
	return t
}

func (x *Exec) substr(st *State, s, lo, hi *Term) *Term {
	if c, ok := x.w.strOf(s); ok && lo.isInt() && hi.isInt() {
		return x.w.strConst(c[lo.ival.Int64():hi.ival.Int64()])
	}
	if lo.isInt() && lo.ival.Sign() == 0 && hi == x.strlen(st, s) {
		return s
	}
	t := App("substr", SInt, s, lo, hi)
	st.assume(Eq(x.strlen(st, t), Sub(hi, lo)))
	i := BoundVar("i", SInt)
	at := App("strat", SInt, t, i)
	st.assume(Forall([]*Term{i}, Imp(And(Le(Int64(0), i), Lt(i, Sub(hi, lo))), Eq(at, App("strat", SInt, s, Add(lo, i)))), []*Term{at}))
	return t
}

func (x *Exec) strcat(st *State, a, b *Term) *Term {
	ca, oka := x.w.strOf(a)
	cb, okb := x.w.strOf(b)
	if oka && okb {
		return x.w.strConst(ca + cb)
	}
	if oka && ca == "" {
		return b
	}
	if okb && cb == "" {
		return a
	}
	t := App("strcat", SInt, a, b)
	st.assume(Eq(x.strlen(st, t), Add(x.strlen(st, a), x.strlen(st, b))))
	return t
}

var strTab = map[string]*Term{}
var strRev = map[*Term]string{}

// strConst: literal strings are distinct literal ids (negative, so never equal to a computed string id by accident of naming).
func (w *World) strConst(s string) *Term {
	if t, ok := strTab[s]; ok {
		return t
	}
	var t *Term
	if s == "" {
		t = Int64(0)
	} else {
		t = Int64(-int64(len(strTab)) - 1000001)
	}
	strTab[s] = t
	strRev[t] = s
	return t
}

func (w *World) strOf(t *Term) (string, bool) {
	if !t.isInt() {
		return "", false
	}
	if t.ival.Sign() == 0 {
		return "", true
	}
	s, ok := strRev[t]
	return s, ok
}

var _ = fmt.Sprint
