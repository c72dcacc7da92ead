package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- sorts

type Sort struct {
	name string
	idx  *Sort // array index
	elem *Sort // array element
}

var (
	SInt  = &Sort{name: "Int"}
	SBool = &Sort{name: "Bool"}
	SReal = &Sort{name: "Real"}
)

var arrSorts = map[*Sort]*Sort{}

// ArrOf returns the sort (Array Int elem).
func ArrOf(elem *Sort) *Sort {
	if s, ok := arrSorts[elem]; ok {
		return s
	}
	s := &Sort{name: "(Array Int " + elem.name + ")", idx: SInt, elem: elem}
	arrSorts[elem] = s
	return s
}

// ---------------------------------------------------------------- terms

type Term struct {
	op    string // "int","true","false","var","bound","app","real" or an SMT operator
	args  []*Term
	sort  *Sort
	name  string
	ival  *big.Int
	id    int
	bound bool // contains a bound variable
	seq   int  // for var: creation order; for compound: max over parts
	alloc bool // var denotes a freshly allocated reference
	lo    *big.Int
	hi    *big.Int
	rng   bool
	erLo  *big.Int // element range of an array constant
	erHi  *big.Int
	// quantifiers
	bvars []*Term
	pats  [][]*Term
}

var (
	termTab = map[string]*Term{}
	termCnt int
	seqCnt  int
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(t.name)
	sb.WriteByte('|')
	sb.WriteString(t.sort.name)
	if t.ival != nil {
		sb.WriteByte('|')
		sb.WriteString(t.ival.String())
	}
	for _, a := range t.args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	for _, a := range t.bvars {
		fmt.Fprintf(&sb, ";%d", a.id)
	}
	for _, p := range t.pats {
		sb.WriteByte('{')
		for _, a := range p {
			fmt.Fprintf(&sb, ",%d", a.id)
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCnt++
	t.id = termCnt
	if t.op == "bound" {
		t.bound = true
	}
	for _, a := range t.args {
		if a.bound {
			t.bound = true
		}
		if a.seq > t.seq {
			t.seq = a.seq
		}
	}
	if len(t.bvars) > 0 {
		// closed unless body has other bound variables
		t.bound = hasFreeBound(t.args[0], t.bvars)
	}
	termTab[k] = t
	return t
}

func hasFreeBound(t *Term, bv []*Term) bool {
	if !t.bound {
		return false
	}
	if t.op == "bound" {
		for _, b := range bv {
			if b == t {
				return false
			}
		}
		return true
	}
	inner := bv
	if len(t.bvars) > 0 {
		inner = append(append([]*Term{}, bv...), t.bvars...)
	}
	for _, a := range t.args {
		if hasFreeBound(a, inner) {
			return true
		}
	}
	return false
}

var (
	TTrue  = intern(&Term{op: "true", sort: SBool})
	TFalse = intern(&Term{op: "false", sort: SBool})
)

func Int64(v int64) *Term     { return IntBig(big.NewInt(v)) }
func IntBig(v *big.Int) *Term { return intern(&Term{op: "int", sort: SInt, ival: new(big.Int).Set(v)}) }
func BoolT(b bool) *Term {
	if b {
		return TTrue
	}
	return TFalse
}
func RealConst(s string) *Term { return intern(&Term{op: "real", sort: SReal, name: s}) }

var nameCnt = map[string]int{}

func sanitize(s string) string {
	return strings.NewReplacer("|", "_", "\\", "_").Replace(s)
}

// Fresh creates a new SMT constant.
func Fresh(name string, s *Sort) *Term {
	name = sanitize(name)
	nameCnt[name]++
	n := fmt.Sprintf("%s!%d", name, nameCnt[name])
	seqCnt++
	t := intern(&Term{op: "var", sort: s, name: n})
	t.seq = seqCnt
	return t
}

// NamedVar creates (or returns) the constant of that exact name.
func NamedVar(name string, s *Sort) *Term {
	return intern(&Term{op: "var", sort: s, name: sanitize(name)})
}

func BoundVar(name string, s *Sort) *Term {
	nameCnt["b$"+name]++
	return intern(&Term{op: "bound", sort: s, name: fmt.Sprintf("%s?%d", sanitize(name), nameCnt["b$"+name])})
}

// App is an uninterpreted function application.
func App(fn string, s *Sort, args ...*Term) *Term {
	return intern(&Term{op: "app", name: sanitize(fn), sort: s, args: args})
}

func (t *Term) isInt() bool { return t.op == "int" }

func (t *Term) String() string { return t.smt(nil) }

func (t *Term) smt(defs map[*Term]string) string {
	var sb strings.Builder
	t.write(&sb, defs)
	return sb.String()
}

func (t *Term) write(sb *strings.Builder, defs map[*Term]string) {
	if defs != nil {
		if n, ok := defs[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	t.writeBody(sb, defs)
}

func (t *Term) writeBody(sb *strings.Builder, defs map[*Term]string) {
	switch t.op {
	case "int":
		if t.ival.Sign() < 0 {
			sb.WriteString("(- " + new(big.Int).Neg(t.ival).String() + ")")
		} else {
			sb.WriteString(t.ival.String())
		}
	case "real":
		sb.WriteString(t.name)
	case "true", "false":
		sb.WriteString(t.op)
	case "var", "bound":
		sb.WriteString("|" + t.name + "|")
	case "app":
		if len(t.args) == 0 {
			sb.WriteString("|" + t.name + "|")
			return
		}
		sb.WriteString("(|" + t.name + "|")
		for _, a := range t.args {
			sb.WriteByte(' ')
			a.write(sb, defs)
		}
		sb.WriteByte(')')
	case "constarr":
		sb.WriteString("((as const " + t.sort.name + ") ")
		t.args[0].write(sb, nil) // cvc5 wants a literal value here
		sb.WriteByte(')')
	case "forall", "exists":
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bvars {
			sb.WriteString("(|" + b.name + "| " + b.sort.name + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		t.args[0].write(sb, defs)
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, a := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				a.write(sb, defs)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteByte(')')
	default:
		sb.WriteString("(" + t.op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			a.write(sb, defs)
		}
		sb.WriteByte(')')
	}
}

// ---------------------------------------------------------------- arithmetic

type lin struct {
	c  *big.Int
	co map[*Term]*big.Int
}

func newLin() *lin { return &lin{c: new(big.Int), co: map[*Term]*big.Int{}} }

func (l *lin) addTerm(t *Term, k *big.Int) {
	switch t.op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.ival))
	case "+":
		for _, a := range t.args {
			l.addTerm(a, k)
		}
	case "*":
		if len(t.args) == 2 && t.args[0].isInt() {
			l.addTerm(t.args[1], new(big.Int).Mul(k, t.args[0].ival))
			return
		}
		l.addAtom(t, k)
	default:
		l.addAtom(t, k)
	}
}

func (l *lin) addAtom(t *Term, k *big.Int) {
	if o, ok := l.co[t]; ok {
		s := new(big.Int).Add(o, k)
		if s.Sign() == 0 {
			delete(l.co, t)
		} else {
			l.co[t] = s
		}
		return
	}
	if k.Sign() != 0 {
		l.co[t] = new(big.Int).Set(k)
	}
}

func (l *lin) term() *Term {
	var atoms []*Term
	for a := range l.co {
		atoms = append(atoms, a)
	}
	sort.Slice(atoms, func(i, j int) bool { return atoms[i].id < atoms[j].id })
	var parts []*Term
	for _, a := range atoms {
		k := l.co[a]
		if k.IsInt64() && k.Int64() == 1 {
			parts = append(parts, a)
		} else {
			parts = append(parts, intern(&Term{op: "*", sort: SInt, args: []*Term{IntBig(k), a}}))
		}
	}
	if l.c.Sign() != 0 || len(parts) == 0 {
		parts = append(parts, IntBig(l.c))
	}
	if len(parts) == 1 {
		return parts[0]
	}
	return intern(&Term{op: "+", sort: SInt, args: parts})
}

var bigOne = big.NewInt(1)

func Add(ts ...*Term) *Term {
	if len(ts) > 0 && ts[0].sort == SReal {
		return intern(&Term{op: "+", sort: SReal, args: ts})
	}
	l := newLin()
	for _, t := range ts {
		l.addTerm(t, bigOne)
	}
	return l.term()
}

func Sub(a, b *Term) *Term {
	if a.sort == SReal {
		return intern(&Term{op: "-", sort: SReal, args: []*Term{a, b}})
	}
	l := newLin()
	l.addTerm(a, bigOne)
	l.addTerm(b, big.NewInt(-1))
	return l.term()
}

func Neg(a *Term) *Term { return Sub(Int64(0), a) }

func Mul(a, b *Term) *Term {
	if a.sort == SReal {
		return intern(&Term{op: "*", sort: SReal, args: []*Term{a, b}})
	}
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := newLin()
		l.addTerm(b, a.ival)
		return l.term()
	}
	// distribute constants-choice over ite to stay linear
	if a.op == "ite" && isConstIte(a) {
		return Ite(a.args[0], Mul(a.args[1], b), Mul(a.args[2], b))
	}
	if b.op == "ite" && isConstIte(b) {
		return Ite(b.args[0], Mul(a, b.args[1]), Mul(a, b.args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: "*", sort: SInt, args: []*Term{a, b}})
}

func isConstIte(t *Term) bool {
	if t.isInt() {
		return true
	}
	return t.op == "ite" && isConstIte(t.args[1]) && isConstIte(t.args[2])
}

// Div and Mod are Euclidean (SMT-LIB); for positive divisors Mod is in [0,d).
func Div(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return IntBig(q)
	}
	if b.isInt() && b.ival.Cmp(bigOne) == 0 {
		return a
	}
	if b.isInt() && b.ival.Sign() > 0 {
		if lo, hi := a.interval(); lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.ival) < 0 {
			return Int64(0)
		}
	}
	return intern(&Term{op: "div", sort: SInt, args: []*Term{a, b}})
}

func Mod(a, b *Term) *Term {
	if a.isInt() && b.isInt() && b.ival.Sign() != 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.ival, b.ival, m)
		return IntBig(m)
	}
	if b.isInt() && b.ival.Sign() > 0 {
		lo, hi := a.interval()
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(b.ival) < 0 {
			return a
		}
		if b.ival.Cmp(bigOne) == 0 {
			return Int64(0)
		}
		// (x mod kb) mod b
		if a.op == "mod" && a.args[1].isInt() {
			r := new(big.Int).Mod(a.args[1].ival, b.ival)
			if r.Sign() == 0 {
				return Mod(a.args[0], b)
			}
		}
		// sum: drop inner mods of multiples of b and multiples of b
		if a.op == "+" {
			l := newLin()
			ch := false
			for _, p := range a.args {
				q := p
				k := bigOne
				if p.op == "*" && p.args[0].isInt() {
					k = p.args[0].ival
					q = p.args[1]
				}
				if q.op == "mod" && q.args[1].isInt() && new(big.Int).Mod(q.args[1].ival, b.ival).Sign() == 0 {
					l.addTerm(q.args[0], k)
					ch = true
					continue
				}
				l.addTerm(p, bigOne)
			}
			if new(big.Int).Abs(l.c).Cmp(b.ival) >= 0 {
				l.c.Mod(l.c, b.ival)
				ch = true
			}
			if ch {
				return Mod(l.term(), b)
			}
		}
	}
	return intern(&Term{op: "mod", sort: SInt, args: []*Term{a, b}})
}

// ---------------------------------------------------------------- intervals

func (t *Term) interval() (*big.Int, *big.Int) {
	if t.rng {
		return t.lo, t.hi
	}
	lo, hi := t.calcInterval()
	t.rng, t.lo, t.hi = true, lo, hi
	return lo, hi
}

func (t *Term) calcInterval() (*big.Int, *big.Int) {
	switch t.op {
	case "int":
		return t.ival, t.ival
	case "+":
		lo, hi := new(big.Int), new(big.Int)
		for _, a := range t.args {
			l, h := a.interval()
			if l == nil {
				lo = nil
			} else if lo != nil {
				lo = new(big.Int).Add(lo, l)
			}
			if h == nil {
				hi = nil
			} else if hi != nil {
				hi = new(big.Int).Add(hi, h)
			}
		}
		return lo, hi
	case "*":
		if t.args[0].isInt() {
			l, h := t.args[1].interval()
			k := t.args[0].ival
			if k.Sign() < 0 {
				l, h = h, l
			}
			var lo, hi *big.Int
			if l != nil {
				lo = new(big.Int).Mul(l, k)
			}
			if h != nil {
				hi = new(big.Int).Mul(h, k)
			}
			return lo, hi
		}
		l1, h1 := t.args[0].interval()
		l2, h2 := t.args[1].interval()
		if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
			lo := new(big.Int).Mul(l1, l2)
			var hi *big.Int
			if h1 != nil && h2 != nil {
				hi = new(big.Int).Mul(h1, h2)
			}
			return lo, hi
		}
	case "mod":
		if t.args[1].isInt() && t.args[1].ival.Sign() > 0 {
			return new(big.Int), new(big.Int).Sub(t.args[1].ival, bigOne)
		}
	case "div":
		if t.args[1].isInt() && t.args[1].ival.Sign() > 0 {
			l, h := t.args[0].interval()
			var lo, hi *big.Int
			if l != nil {
				lo, _ = new(big.Int).DivMod(l, t.args[1].ival, new(big.Int))
			}
			if h != nil {
				hi, _ = new(big.Int).DivMod(h, t.args[1].ival, new(big.Int))
			}
			return lo, hi
		}
	case "ite":
		l1, h1 := t.args[1].interval()
		l2, h2 := t.args[2].interval()
		var lo, hi *big.Int
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(lo) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(hi) > 0 {
				hi = h2
			}
		}
		return lo, hi
	}
	return nil, nil
}

// ---------------------------------------------------------------- booleans

func Not(a *Term) *Term {
	switch a.op {
	case "true":
		return TFalse
	case "false":
		return TTrue
	case "not":
		return a.args[0]
	case "<=": // not (a <= b)  ->  b < a
		return Lt(a.args[1], a.args[0])
	case "<":
		return Le(a.args[1], a.args[0])
	}
	return intern(&Term{op: "not", sort: SBool, args: []*Term{a}})
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t.op == "and" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		if t == TTrue || seen[t] {
			continue
		}
		if t == TFalse {
			return TFalse
		}
		seen[t] = true
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return TTrue
	case 1:
		return out[0]
	}
	return intern(&Term{op: "and", sort: SBool, args: out})
}

func Or(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.op == "or" {
			out = append(out, t.args...)
			continue
		}
		if t == TFalse {
			continue
		}
		if t == TTrue {
			return TTrue
		}
		out = append(out, t)
	}
	switch len(out) {
	case 0:
		return TFalse
	case 1:
		return out[0]
	}
	return intern(&Term{op: "or", sort: SBool, args: out})
}

func Imp(a, b *Term) *Term {
	if a == TTrue {
		return b
	}
	if a == TFalse || b == TTrue {
		return TTrue
	}
	if b == TFalse {
		return Not(a)
	}
	if a == b {
		return TTrue
	}
	return intern(&Term{op: "=>", sort: SBool, args: []*Term{a, b}})
}

func Ite(c, a, b *Term) *Term {
	if c == TTrue {
		return a
	}
	if c == TFalse {
		return b
	}
	if a == b {
		return a
	}
	if a.sort == SBool {
		if a == TTrue && b == TFalse {
			return c
		}
		if a == TFalse && b == TTrue {
			return Not(c)
		}
	}
	return intern(&Term{op: "ite", sort: a.sort, args: []*Term{c, a, b}})
}

func Eq(a, b *Term) *Term {
	if a == b {
		return TTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("sort mismatch in =: %s : %s vs %s : %s", a, a.sort.name, b, b.sort.name))
	}
	if a.sort == SBool {
		if a == TTrue {
			return b
		}
		if b == TTrue {
			return a
		}
		if a == TFalse {
			return Not(b)
		}
		if b == TFalse {
			return Not(a)
		}
	}
	if a.sort == SInt {
		d := Sub(a, b)
		if d.isInt() {
			return BoolT(d.ival.Sign() == 0)
		}
		if knownDistinct(a, b) {
			return TFalse
		}
		lo, hi := d.interval()
		if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
			return TFalse
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: "=", sort: SBool, args: []*Term{a, b}})
}

// knownDistinct: two references that cannot be equal (fresh allocation vs. anything older).
func knownDistinct(a, b *Term) bool {
	a, b = stripConst(a), stripConst(b)
	if a.alloc && b.alloc && a != b {
		return true
	}
	if a.alloc && b.isInt() || b.alloc && a.isInt() {
		return true // allocated refs are positive and never literal ids
	}
	return olderThanAlloc(a, b) || olderThanAlloc(b, a)
}

// stripConst drops a constant offset: nested objects live at base+slot.
func stripConst(t *Term) *Term {
	if t.op == "+" && len(t.args) == 2 {
		if t.args[0].isInt() {
			return t.args[1]
		}
		if t.args[1].isInt() {
			return t.args[0]
		}
	}
	return t
}

func Ne(a, b *Term) *Term { return Not(Eq(a, b)) }

func Le(a, b *Term) *Term {
	if a.sort == SReal {
		return intern(&Term{op: "<=", sort: SBool, args: []*Term{a, b}})
	}
	d := Sub(a, b)
	lo, hi := d.interval()
	if hi != nil && hi.Sign() <= 0 {
		return TTrue
	}
	if lo != nil && lo.Sign() > 0 {
		return TFalse
	}
	return intern(&Term{op: "<=", sort: SBool, args: []*Term{a, b}})
}

func Lt(a, b *Term) *Term {
	if a.sort == SReal {
		return intern(&Term{op: "<", sort: SBool, args: []*Term{a, b}})
	}
	d := Sub(a, b)
	lo, hi := d.interval()
	if hi != nil && hi.Sign() < 0 {
		return TTrue
	}
	if lo != nil && lo.Sign() >= 0 {
		return TFalse
	}
	return intern(&Term{op: "<", sort: SBool, args: []*Term{a, b}})
}

func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

// ---------------------------------------------------------------- arrays

func ConstArr(s *Sort, v *Term) *Term {
	return intern(&Term{op: "constarr", sort: s, args: []*Term{v}})
}

// constStores indexes a chain of stores at constant positions.
type storeTab struct {
	vals map[*Term]*Term
	base *Term
}

var storeTabs = map[*Term]*storeTab{}

func constStores(a *Term) *storeTab {
	if t, ok := storeTabs[a]; ok {
		return t
	}
	if len(storeTabs) > 8 {
		storeTabs = map[*Term]*storeTab{}
	}
	t := &storeTab{vals: map[*Term]*Term{}}
	b := a
	for b.op == "store" && b.args[1].isInt() {
		if _, ok := t.vals[b.args[1]]; !ok {
			t.vals[b.args[1]] = b.args[2]
		}
		b = b.args[0]
	}
	t.base = b
	storeTabs[a] = t
	return t
}

func Select(a, i *Term) *Term {
	if a.sort.elem == nil {
		panic("select on non-array " + a.String())
	}
	for d := 0; ; d++ {
		if a.op == "store" {
			j := a.args[1]
			if j == i {
				return a.args[2]
			}
			if i.isInt() && j.isInt() {
				if d == 100 {
					tab := constStores(a)
					if v, ok := tab.vals[i]; ok {
						return v
					}
					a = tab.base
					continue
				}
				a = a.args[0]
				continue
			}
			if knownDistinct(i, j) {
				a = a.args[0]
				continue
			}
			d := Sub(i, j)
			if lo, hi := d.interval(); lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
				a = a.args[0]
				continue
			}
		}
		if a.op == "constarr" {
			return a.args[0]
		}
		break
	}
	t := intern(&Term{op: "select", sort: a.sort.elem, args: []*Term{a, i}})
	if t.sort == SInt && !t.rng {
		if r := rootArr(a); r != nil && (r.erLo != nil || r.erHi != nil) {
			t.rng, t.lo, t.hi = true, r.erLo, r.erHi
		}
	}
	return t
}

// rootArr finds the array constant a store/select chain is built on.
func rootArr(a *Term) *Term {
	for {
		switch a.op {
		case "store", "select":
			a = a.args[0]
		case "ite":
			a = a.args[1]
		case "var":
			return a
		default:
			return nil
		}
	}
}

// olderThanAlloc reports that x is a named constant that existed before the
// allocation al took place, so the two references differ.
func olderThanAlloc(x, al *Term) bool {
	return al.alloc && x.op == "var" && !x.bound && x.seq < al.seq && x.sort == SInt
}

func Store(a, i, v *Term) *Term {
	if a.op == "store" && a.args[1] == i {
		a = a.args[0]
	}
	if v.op == "select" && v.args[0] == a && v.args[1] == i {
		return a
	}
	return intern(&Term{op: "store", sort: a.sort, args: []*Term{a, i, v}})
}

func Forall(bv []*Term, body *Term, pats ...[]*Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	return intern(&Term{op: "forall", sort: SBool, args: []*Term{body}, bvars: bv, pats: pats})
}

func Exists(bv []*Term, body *Term) *Term {
	if body == TTrue || body == TFalse {
		return body
	}
	return intern(&Term{op: "exists", sort: SBool, args: []*Term{body}, bvars: bv})
}

// ---------------------------------------------------------------- substitution

func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = rec(a)
			if args[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, args)
			if len(t.bvars) > 0 && len(t.pats) > 0 {
				var pats [][]*Term
				for _, p := range t.pats {
					var np []*Term
					for _, x := range p {
						np = append(np, rec(x))
					}
					pats = append(pats, np)
				}
				r = intern(&Term{op: t.op, sort: SBool, args: args, bvars: t.bvars, pats: pats})
			}
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "div":
		return Div(args[0], args[1])
	case "mod":
		return Mod(args[0], args[1])
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Imp(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		return Eq(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "app":
		return App(t.name, t.sort, args...)
	case "forall":
		return Forall(t.bvars, args[0], t.pats...)
	case "exists":
		return Exists(t.bvars, args[0])
	}
	return intern(&Term{op: t.op, sort: t.sort, name: t.name, args: args, ival: t.ival, bvars: t.bvars, pats: t.pats})
}
