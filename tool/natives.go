package main

import (
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type nctx struct {
	x    *Exec
	st   *State
	fr   *Frame
	fn   *ssa.Function
	args []Val
	pos  token.Pos
	k    func(*State, Val)
}

func (n *nctx) a(i int) *Term         { return n.args[i].ts[0] }
func (n *nctx) pt(i int) types.Type   { return sigTypes(n.fn.Signature)[i] }
func (n *nctx) ret(ts ...*Term)       { n.k(n.st, Val{ts: ts}) }
func (n *nctx) fresh(name string) Val { return n.x.freshVal(n.st, name, n.fn.Signature.Results()) }
func (n *nctx) load(i int, t types.Type) Val {
	p := n.args[i]
	n.x.nilDeref(n.st, p, n.pos)
	return n.x.load(n.st, p, t)
}

type native func(*nctx)

var natives map[string]native

func pure(name string, sort *Sort) native {
	return func(n *nctx) {
		var ts []*Term
		for _, a := range n.args {
			ts = append(ts, a.ts...)
		}
		n.x.note("library function " + name + " is a deterministic function of its arguments")
		t := App("fn:"+name, sort, ts...)
		res := n.fn.Signature.Results().At(0).Type()
		ls := leaves(res)
		if len(ls) == 1 && ls[0].kind == kInt && !t.rng {
			t.rng, t.lo, t.hi = true, ls[0].lo, ls[0].hi
		}
		n.x.wf(n.st, ls, []*Term{t})
		n.ret(t)
	}
}

// mutexes -------------------------------------------------------------

func (x *Exec) mutexKey(p Val) (string, *Term, string) {
	if p.loc != nil && p.loc.field != "" {
		return lockName(stripInst(p.loc.field), p.loc.base), p.loc.base, stripInst(p.loc.field)
	}
	if p.loc != nil && p.loc.kind == lGlobal {
		return "lock:" + p.loc.key, nil, p.loc.key
	}
	return "lock:" + p.ts[0].String(), nil, ""
}

func lockFn(write bool) native {
	return func(n *nctx) {
		x, st := n.x, n.st
		key, base, field := x.mutexKey(n.args[0])
		_, held := st.held[key]
		x.oblige(st, "lock", "not already held", BoolT(!held), n.pos)
		if st.locked[key] && base != nil && !stripConst(base).alloc {
			// another critical section may have run in between
			x.havocGuarded(st, field, base)
		}
		st.locked[key] = true
		st.held[key] = lockInfo{write: write, ref: base, field: field}
		x.note("mutex-protected methods are verified as atomic between Lock and Unlock (lock discipline of guarded fields is itself an obligation)")
		n.ret()
	}
}

// onceDo: the function runs at the first call; ghost onceDone(once) tells whether that happened.
func onceDo(n *nctx) {
	x := n.x
	const key = "G:onceDone"
	regHeap(key, ArrOf(SInt), nil)
	p := n.a(0)
	x.branch(n.st, Ne(Select(n.st.get(key), p), Int64(0)), func(st *State) { n.k(st, Val{}) }, func(st *State) {
		x.callValue(st, n.fr, n.a(1), nil, core(n.pt(1)).(*types.Signature), nil, n.pos, func(s *State, _ Val) {
			x.write(s, key, p, nil, Int64(1))
			n.k(s, Val{})
		})
	})
}

func unlockFn(n *nctx) {
	x, st := n.x, n.st
	key, _, _ := x.mutexKey(n.args[0])
	_, held := st.held[key]
	x.oblige(st, "lock", "held at unlock", BoolT(held), n.pos)
	delete(st.held, key)
	n.ret()
}

func (x *Exec) havocGuarded(st *State, mu string, base *Term) {
	// mu = pkg.T.mutex
	i := strings.LastIndexByte(mu, '.')
	T, m := mu[:i], mu[i+1:]
	for f, g := range x.w.db.guards {
		j := strings.LastIndexByte(f, '.')
		if f[:j] != T || g != m {
			continue
		}
		if _, ok := x.w.db.ghosts[f[j+1:]]; ok { // a ghost of the guarded object
			x.havocRegion(st, region{key: "G:" + f[j+1:], ref: base})
			continue
		}
		for key := range heapSorts {
			fk := "F:" + f
			if strings.HasPrefix(key, fk) && (len(key) == len(fk) || key[len(fk)] == '.') || stripInst(key) == fk {
				x.havocRegion(st, region{key: key, ref: base})
			}
		}
	}
}

// atomics -------------------------------------------------------------

func atomicTarget(fn *ssa.Function) types.Type {
	if r := fn.Signature.Recv(); r != nil {
		return deref(r.Type())
	}
	return deref(fn.Signature.Params().At(0).Type())
}

func atomicOp(op string) native {
	return func(n *nctx) {
		x, st := n.x, n.st
		x.note("sync/atomic operations are executed in program order (no interference between two operations of one call)")
		rt := types.Type(types.Typ[types.Int])
		p := n.args[0]
		x.nilDeref(st, p, n.pos)
		l := p.loc
		if l == nil {
			l = &Loc{kind: lRef, key: cKey(atomicTarget(n.fn)), ref: p.t(), typ: atomicTarget(n.fn)}
		}
		var ty types.Type // value type
		if len(n.fn.Signature.Params().String()) > 2 {
			ty = n.fn.Signature.Params().At(0).Type()
		}
		if ty == nil {
			ty = n.fn.Signature.Results().At(0).Type()
		}
		_ = rt
		isBool := leaves(ty)[0].sort == SBool
		ll := *l
		if l.kind == lField || l.kind == lRef || l.kind == lGlobal {
			ll.typ = l.typ
		}
		get := func() *Term {
			t := x.loadLoc(st, &ll)[0]
			if isBool {
				return Eq(t, Int64(1))
			}
			if !t.rng && leaves(ty)[0].kind == kInt && (t.op == "select" || t.op == "var") {
				t.rng, t.lo, t.hi = true, leaves(ty)[0].lo, leaves(ty)[0].hi
			}
			x.wf(st, leaves(ty), []*Term{t})
			return t
		}
		put := func(v *Term) {
			if isBool {
				v = Ite(v, Int64(1), Int64(0))
			}
			x.storeLoc(st, &ll, []*Term{v})
		}
		switch op {
		case "Load":
			n.ret(get())
		case "Store":
			put(n.a(1))
			n.ret()
		case "Swap":
			o := get()
			put(n.a(1))
			n.ret(o)
		case "Add":
			v := x.wrap(st, Add(get(), n.a(1)), ty)
			put(v)
			n.ret(v)
		case "CAS":
			o := get()
			x.branch(st, Eq(o, n.a(1)), func(s *State) {
				n2 := *n
				n2.st = s
				v := n.a(2)
				if isBool {
					v = Ite(v, Int64(1), Int64(0))
				}
				x.storeLoc(s, &ll, []*Term{v})
				n2.ret(TTrue)
			}, func(s *State) {
				n2 := *n
				n2.st = s
				n2.ret(TFalse)
			})
		}
	}
}

func nonNilErr(n *nctx) {
	r := n.x.freshAlloc(n.st, "error", 1)
	n.x.note("errors.New / fmt.Errorf return a fresh non-nil error")
	n.ret(r)
}

func freshRes(n *nctx) { n.k(n.st, n.fresh(n.fn.Name())) }

func putN(be bool, bytes int) native {
	return func(n *nctx) {
		// (binary.xEndian).PutUintN(recv, b, v)
		x, st := n.x, n.st
		b, v := n.args[len(n.args)-2], n.args[len(n.args)-1].ts[0]
		x.bounds(st, Int64(int64(bytes-1)), b.ts[2], n.pos)
		et := types.Typ[types.Uint8]
		for i := 0; i < bytes; i++ {
			sh := 8 * i
			if be {
				sh = 8 * (bytes - 1 - i)
			}
			byt := Mod(Div(v, IntBig(pow2(sh))), Int64(256))
			a := x.elemAddr(b.ts[0], Add(b.ts[1], Int64(int64(i))), et)
			x.storeLoc(st, a.loc, []*Term{byt})
		}
		n.ret()
	}
}

func getN(be bool, bytes int) native {
	return func(n *nctx) {
		x, st := n.x, n.st
		b := n.args[len(n.args)-1]
		x.bounds(st, Int64(int64(bytes-1)), b.ts[2], n.pos)
		et := types.Typ[types.Uint8]
		var sum []*Term
		for i := 0; i < bytes; i++ {
			sh := 8 * i
			if be {
				sh = 8 * (bytes - 1 - i)
			}
			a := x.elemAddr(b.ts[0], Add(b.ts[1], Int64(int64(i))), et)
			sum = append(sum, Mul(IntBig(pow2(sh)), x.loadLoc(st, a.loc)[0]))
		}
		n.ret(Add(sum...))
	}
}

func elemOf(t types.Type) types.Type { return core(t).(*types.Slice).Elem() }

// cloneSlice copies the contents to a new backing array.
func (x *Exec) cloneSlice(st *State, s Val, et types.Type) Val {
	if s.ts[0].isInt() && s.ts[0].ival.Sign() == 0 {
		return s
	}
	var inner []*Term
	for _, l := range leaves(et) {
		key, so := elemHeap(et, l)
		regHeap(key, so, l)
		inner = append(inner, Select(st.get(key), s.ts[0]))
	}
	r := x.newBacking(st, "clone", et, inner)
	cp := Fresh("cap", SInt)
	cp.rng, cp.lo, cp.hi = true, new(big.Int), maxLen
	st.assume(Le(s.ts[2], cp), Le(Add(s.ts[1], cp), IntBig(maxLen)))
	isNil := Eq(s.ts[0], Int64(0))
	return Val{ts: []*Term{Ite(isNil, Int64(0), r), s.ts[1], s.ts[2], Ite(isNil, Int64(0), cp)}}
}

func (x *Exec) strLower(st *State, s *Term) *Term {
	if c, ok := x.w.strOf(s); ok {
		return x.w.strConst(strings.ToLower(c))
	}
	if s.op == "app" && s.name == "fn:lower" {
		return s
	}
	t := App("fn:lower", SInt, s)
	st.assume(Eq(App("fn:lower", SInt, t), t))
	return t
}

func init() {
	natives = map[string]native{
		"(*sync.Once).Do":         onceDo,
		"(*sync.Mutex).Lock":      lockFn(true),
		"(*sync.Mutex).Unlock":    unlockFn,
		"(*sync.RWMutex).Lock":    lockFn(true),
		"(*sync.RWMutex).Unlock":  unlockFn,
		"(*sync.RWMutex).RLock":   lockFn(false),
		"(*sync.RWMutex).RUnlock": unlockFn,
		"errors.New":              nonNilErr,
		"errors.Join": func(n *nctx) {
			st := n.st
			s := n.args[0]
			et := elemOf(n.pt(0))
			l := leaves(et)[0]
			key, so := elemHeap(et, l)
			regHeap(key, so, l)
			row := Select(st.get(key), s.ts[0])
			r := Fresh("join", SInt)
			st.assume(Le(Int64(0), r))
			if s.ts[2].isInt() && s.ts[2].ival.IsInt64() && s.ts[2].ival.Int64() <= 8 {
				var cs []*Term
				for i := int64(0); i < s.ts[2].ival.Int64(); i++ {
					cs = append(cs, Eq(Select(row, Add(s.ts[1], Int64(i))), Int64(0)))
				}
				st.assume(Eq(Eq(r, Int64(0)), And(cs...)))
			} else {
				b := BoundVar("j", SInt)
				st.assume(Eq(Eq(r, Int64(0)), Forall([]*Term{b}, Imp(And(Le(s.ts[1], b), Lt(b, Add(s.ts[1], s.ts[2]))), Eq(Select(row, b), Int64(0))), []*Term{Select(row, b)})))
			}
			n.ret(r)
		},
		"fmt.Errorf":  nonNilErr,
		"fmt.Sprintf": freshRes,
		"fmt.Sprint":  freshRes,
		"errors.Is": func(n *nctx) {
			n.x.note("errors.Is(e, t) holds when e == t and is arbitrary for other non-nil errors")
			r := App("errors.Is", SBool, n.a(0), n.a(1))
			n.st.assume(Imp(Eq(n.a(0), n.a(1)), r), Imp(And(Eq(n.a(0), Int64(0)), Ne(n.a(1), Int64(0))), Not(r)))
			n.ret(r)
		},
		"(encoding/binary.littleEndian).PutUint16": putN(false, 2),
		"(encoding/binary.littleEndian).PutUint32": putN(false, 4),
		"(encoding/binary.littleEndian).Uint16":    getN(false, 2),
		"(encoding/binary.littleEndian).Uint32":    getN(false, 4),
		"(encoding/binary.bigEndian).PutUint16":    putN(true, 2),
		"(encoding/binary.bigEndian).PutUint32":    putN(true, 4),
		"(encoding/binary.bigEndian).PutUint64":    putN(true, 8),
		"(encoding/binary.bigEndian).Uint16":       getN(true, 2),
		"(encoding/binary.bigEndian).Uint32":       getN(true, 4),
		"strings.ToLower":                          func(n *nctx) { n.ret(n.x.strLower(n.st, n.a(0))) },
		"strings.ToUpper":                          pure("strings.ToUpper", SInt),
		"strings.TrimSpace":                        pure("strings.TrimSpace", SInt),
		"strings.HasPrefix":                        pure("strings.HasPrefix", SBool),
		"strings.HasSuffix":                        pure("strings.HasSuffix", SBool),
		"strings.Contains":                         pure("strings.Contains", SBool),
		"strings.EqualFold": func(n *nctx) {
			n.ret(Eq(n.x.strLower(n.st, n.a(0)), n.x.strLower(n.st, n.a(1))))
		},
		"strings.Count": func(n *nctx) {
			t := App("fn:strings.Count", SInt, n.a(0), n.a(1))
			n.st.assume(Le(Int64(0), t))
			n.ret(t)
		},
		"strings.CutPrefix": func(n *nctx) {
			ok := App("fn:strings.HasPrefix", SBool, n.a(0), n.a(1))
			r := Ite(ok, App("fn:strings.TrimPrefix", SInt, n.a(0), n.a(1)), n.a(0))
			n.ret(r, ok)
		},
		"strings.Split":  splitFn,
		"strings.SplitN": splitFn,
		"strconv.Itoa":   pure("strconv.Itoa", SInt),
		"strconv.Atoi": func(n *nctx) {
			s := n.a(0)
			v := App("fn:strconv.Atoi", SInt, s)
			if !v.rng {
				v.rng = true
				v.lo, v.hi = bounds(64, true)
			}
			e := App("fn:strconv.Atoi.err", SInt, s)
			n.st.assume(Le(Int64(0), e))
			n.st.assume(Eq(App("fn:strconv.Atoi", SInt, App("fn:strconv.Itoa", SInt, v)), v))
			n.ret(v, e)
		},
		"strconv.ParseUint": func(n *nctx) {
			v := App("fn:strconv.ParseUint", SInt, n.a(0), n.a(1), n.a(2))
			if !v.rng {
				v.rng = true
				v.lo, v.hi = bounds(64, false)
			}
			e := App("fn:strconv.ParseUint.err", SInt, n.a(0), n.a(1), n.a(2))
			n.st.assume(Le(Int64(0), e))
			for _, b := range []int{8, 16, 32} {
				n.st.assume(Imp(And(Eq(n.a(2), Int64(int64(b))), Eq(e, Int64(0))), Lt(v, IntBig(pow2(b)))))
			}
			n.ret(v, e)
		},
		"math.Sin":   pure("math.Sin", SReal),
		"math.Cos":   pure("math.Cos", SReal),
		"math.Floor": pure("math.Floor", SReal),
		"math/rand.Intn": func(n *nctx) {
			n.x.oblige(n.st, "pre", "rand.Intn positive", Lt(Int64(0), n.a(0)), n.pos)
			v := n.fresh("rand")
			n.st.assume(Le(Int64(0), v.t()), Lt(v.t(), n.a(0)))
			n.k(n.st, v)
		},
		"math/rand/v2.IntN": func(n *nctx) {
			n.x.oblige(n.st, "pre", "rand.IntN positive", Lt(Int64(0), n.a(0)), n.pos)
			v := n.fresh("rand")
			n.st.assume(Le(Int64(0), v.t()), Lt(v.t(), n.a(0)))
			n.k(n.st, v)
		},
		"time.Now": timeNow,
		"github.com/livekit/protocol/utils/mono.Now": timeNow,
		"time.Until": func(n *nctx) {
			now := n.x.now(n.st)
			n.ret(n.x.durClamp(n.st, Sub(n.a(0), now)))
		},
		"time.Since": func(n *nctx) {
			now := n.x.now(n.st)
			n.ret(n.x.durClamp(n.st, Sub(now, n.a(0))))
		},
		"(time.Time).Sub":    func(n *nctx) { n.ret(n.x.durClamp(n.st, Sub(n.a(0), n.a(1)))) },
		"(time.Time).Add":    func(n *nctx) { n.ret(Add(n.a(0), n.a(1))) },
		"(time.Time).Before": func(n *nctx) { n.ret(Lt(n.a(0), n.a(1))) },
		"(time.Time).After":  func(n *nctx) { n.ret(Lt(n.a(1), n.a(0))) },
		"(time.Time).Equal":  func(n *nctx) { n.ret(Eq(n.a(1), n.a(0))) },
		"(time.Time).IsZero": func(n *nctx) { n.ret(Eq(n.a(0), Int64(0))) },
		"(time.Duration).Milliseconds": func(n *nctx) {
			n.ret(n.x.quo(n.st, n.a(0), Int64(1000000)))
		},
		"(time.Duration).Nanoseconds":  func(n *nctx) { n.ret(n.a(0)) },
		"(time.Duration).Microseconds": func(n *nctx) { n.ret(n.x.quo(n.st, n.a(0), Int64(1000))) },
		"(time.Duration).Seconds": func(n *nctx) {
			n.ret(intern(&Term{op: "/", sort: SReal, args: []*Term{intern(&Term{op: "to_real", sort: SReal, args: []*Term{n.a(0)}}), RealConst("1000000000.0")}}))
		},
		"slices.Clone": func(n *nctx) { n.k(n.st, n.x.cloneSlice(n.st, n.args[0], elemOf(n.pt(0)))) },
		"slices.Grow": func(n *nctx) {
			x, st := n.x, n.st
			s, c := n.args[0], n.a(1)
			x.oblige(st, "panic", "slices.Grow negative", Le(Int64(0), c), n.pos)
			et := elemOf(n.pt(0))
			cl := x.cloneSlice(st, s, et)
			fits := Le(Add(s.ts[2], c), s.ts[3])
			st.assume(Imp(Not(fits), And(Ne(cl.ts[0], Int64(0)))))
			r := Val{}
			ncap := Fresh("cap", SInt)
			ncap.rng, ncap.lo, ncap.hi = true, new(big.Int), maxLen
			st.assume(Le(Add(s.ts[2], c), ncap), Le(s.ts[2], ncap), Le(Add(s.ts[1], ncap), IntBig(maxLen)))
			var inner []*Term
			for _, l := range leaves(et) {
				key, _ := elemHeap(et, l)
				inner = append(inner, Select(st.get(key), s.ts[0]))
			}
			nr := x.newBacking(st, "grow", et, inner)
			r.ts = []*Term{Ite(fits, s.ts[0], nr), s.ts[1], s.ts[2], Ite(fits, s.ts[3], ncap)}
			n.k(st, r)
		},
		"slices.Delete":         slicesDelete,
		"slices.Index":          slicesIndex,
		"slices.Contains":       slicesContains,
		"slices.IndexFunc":      slicesIndexFunc,
		"slices.SortFunc":       slicesPermute,
		"slices.SortStableFunc": slicesPermute,
		"slices.Sort":           slicesPermute,
		"golang.org/x/exp/maps.Keys": func(n *nctx) {
			x, st := n.x, n.st
			mt := core(n.pt(0)).(*types.Map)
			m := n.a(0)
			_, _, ln := mapKeys(mt)
			res := n.fn.Signature.Results().At(0).Type()
			et := elemOf(res)
			L := Ite(Eq(m, Int64(0)), Int64(0), Select(st.get(ln), m))
			st.assume(Le(Int64(0), L), Le(L, IntBig(maxLen)))
			inner := Fresh("keys", ArrOf(SInt))
			r := x.newBacking(st, "keys", et, []*Term{inner})
			n.ret(r, Int64(0), L, L)
		},
		"context.Background": func(n *nctx) {
			v := n.fresh("ctx")
			n.st.assume(Ne(v.t(), Int64(0)))
			n.k(n.st, v)
		},
		"(*strings.Builder).WriteString": func(n *nctx) { n.k(n.st, n.fresh("wr")) },
		"(*strings.Builder).String":      func(n *nctx) { n.k(n.st, n.fresh("str")) },
		"encoding/base64.init":           func(n *nctx) { n.ret() },
	}
	for _, t := range []string{"Bool", "Int32", "Int64", "Uint32", "Uint64", "Pointer"} {
		p := "(*sync/atomic." + t + ")"
		if t == "Pointer" {
			p = "(*sync/atomic.Pointer[T])"
		}
		natives[p+".Load"] = atomicOp("Load")
		natives[p+".Store"] = atomicOp("Store")
		natives[p+".Swap"] = atomicOp("Swap")
		natives[p+".Add"] = atomicOp("Add")
		natives[p+".CompareAndSwap"] = atomicOp("CAS")
	}
}

func (x *Exec) now(st *State) *Term {
	regHeap("NOW", SInt, nil)
	x.note("time is an integer count of nanoseconds; successive clock readings never decrease; the zero time precedes them")
	last := st.get("NOW")
	st.assume(Lt(Int64(0), last))
	t := Fresh("now", SInt)
	st.assume(Le(last, t))
	x.recordWrite("NOW", nil, nil)
	st.heap["NOW"] = t
	if st.clk == nil {
		st.clk = t
	}
	return t
}

func timeNow(n *nctx) { n.ret(n.x.now(n.st)) }

func (x *Exec) durClamp(st *State, d *Term) *Term {
	lo, hi := bounds(64, true)
	if inRange(d, lo, hi) {
		return d
	}
	return Ite(Lt(d, IntBig(lo)), IntBig(lo), Ite(Lt(IntBig(hi), d), IntBig(hi), d))
}

func splitFn(n *nctx) {
	// the parts are an uninterpreted function of the arguments; at least one part unless n == 0
	x, st := n.x, n.st
	x.note("strings.Split/SplitN: parts are an uninterpreted function of string and separator")
	var as []*Term
	for _, a := range n.args {
		as = append(as, a.ts...)
	}
	name := "fn:strings.Split"
	if len(as) == 3 {
		name = "fn:strings.SplitN"
	}
	L := App(name+".len", SInt, as...)
	if !L.rng {
		L.rng, L.lo, L.hi = true, new(big.Int), maxLen
	}
	if len(as) == 3 {
		st.assume(Imp(Ne(as[2], Int64(0)), Le(Int64(1), L)))
		st.assume(Imp(Lt(Int64(0), as[2]), Le(L, as[2])))
	} else {
		st.assume(Le(Int64(1), L))
	}
	inner := App(name, ArrOf(SInt), as...)
	r := x.newBacking(st, "parts", types.Typ[types.String], []*Term{inner})
	n.ret(r, Int64(0), L, L)
}

func slicesDelete(n *nctx) {
	x, st := n.x, n.st
	s, i, j := n.args[0], n.a(1), n.a(2)
	arr, off, ln, cp := s.ts[0], s.ts[1], s.ts[2], s.ts[3]
	et := elemOf(n.pt(0))
	x.oblige(st, "bounds", "slices.Delete", And(Le(Int64(0), i), Le(i, j), Le(j, ln)), n.pos)
	d := Sub(j, i)
	for _, l := range leaves(et) {
		key, so := elemHeap(et, l)
		regHeap(key, so, l)
		old := Select(st.get(key), arr)
		f := Fresh("del", ArrOf(l.sort))
		f.erLo, f.erHi = l.lo, l.hi
		b := BoundVar("j", SInt)
		// absolute positions
		st.assume(Forall([]*Term{b}, Eq(Select(f, b),
			Ite(And(Le(Add(off, i), b), Lt(b, Add(off, Sub(ln, d)))), Select(old, Add(b, d)),
				Ite(And(Le(Add(off, Sub(ln, d)), b), Lt(b, Add(off, ln))), zeroOf(l), Select(old, b)))), []*Term{Select(f, b)}))
		c := BoundVar("k", SInt)
		if cleanPat(old) {
			st.assume(Forall([]*Term{c}, And(Imp(And(Le(off, c), Lt(c, Add(off, i))), Eq(Select(f, c), Select(old, c))),
				Imp(And(Le(Add(off, j), c), Lt(c, Add(off, ln))), Eq(Select(f, Sub(c, d)), Select(old, c)))), []*Term{Select(old, c)}))
		}
		x.writeArr(st, key, arr, f)
	}
	n.ret(arr, off, Sub(ln, d), cp)
}

func slicesIndex(n *nctx) {
	x, st := n.x, n.st
	s := n.args[0]
	et := elemOf(n.pt(0))
	r := Fresh("index", SInt)
	r.rng, r.lo, r.hi = true, big.NewInt(-1), maxLen
	st.assume(Lt(r, s.ts[2]))
	at := func(i *Term) Val {
		var v Val
		for _, l := range leaves(et) {
			key, so := elemHeap(et, l)
			regHeap(key, so, l)
			v.ts = append(v.ts, Select(Select(st.get(key), s.ts[0]), i))
		}
		return v
	}
	st.assume(Imp(Le(Int64(0), r), x.equal(st, at(Add(s.ts[1], r)), n.args[1], et, et)))
	b := BoundVar("j", SInt)
	e := x.equal(st, at(b), n.args[1], et, et)
	st.assume(Forall([]*Term{b}, Imp(And(Le(s.ts[1], b), Lt(b, Add(s.ts[1], Ite(Le(Int64(0), r), r, s.ts[2])))), Not(e)), []*Term{at(b).ts[0]}))
	n.ret(r)
}

func slicesContains(n *nctx) {
	n2 := *n
	n2.k = func(s *State, v Val) { n.k(s, one(Le(Int64(0), v.t()))) }
	slicesIndex(&n2)
}

// slices.IndexFunc: first index whose element satisfies the predicate; the
// predicate is executed on that element (and assumed true there).
func slicesIndexFunc(n *nctx) {
	x, st := n.x, n.st
	s := n.args[0]
	et := elemOf(n.pt(0))
	s2 := st.clone()
	// not found
	s2.trail = append(s2.trail, "IndexFunc=-1")
	x.guard(s2, "", func() { n.k(s2, one(Int64(-1))) })
	r := Fresh("index", SInt)
	r.rng, r.lo, r.hi = true, new(big.Int), maxLen
	st.assume(Lt(r, s.ts[2]))
	if st.dead() {
		return
	}
	var v Val
	for _, l := range leaves(et) {
		key, so := elemHeap(et, l)
		regHeap(key, so, l)
		v.ts = append(v.ts, Select(Select(st.get(key), s.ts[0]), Add(s.ts[1], r)))
	}
	x.wf(st, leaves(et), v.ts)
	x.note("slices.IndexFunc: only the found element is examined (earlier elements unconstrained)")
	x.callValue(st, n.fr, n.a(1), nil, core(n.pt(1)).(*types.Signature), []Val{v}, n.pos, func(s3 *State, b Val) {
		if b.t() == TFalse {
			return
		}
		s3.assume(b.t())
		n.k(s3, one(r))
	})
}

// sorting: the elements are permuted in an unspecified way (each result element occurs in the input and vice versa).
func slicesPermute(n *nctx) {
	x, st := n.x, n.st
	s := n.args[0]
	et := elemOf(n.pt(0))
	x.note(origin(n.fn).String() + ": result is a permutation of the input; the order itself is not modelled")
	perm := Fresh("perm", ArrOf(SInt))
	inv := Fresh("perminv", ArrOf(SInt))
	arr, off, ln := s.ts[0], s.ts[1], s.ts[2]
	j := BoundVar("j", SInt)
	in := func(t *Term) *Term { return And(Le(off, t), Lt(t, Add(off, ln))) }
	st.assume(Forall([]*Term{j}, Imp(in(j), And(in(Select(perm, j)), Eq(Select(inv, Select(perm, j)), j))), []*Term{Select(perm, j)}))
	st.assume(Forall([]*Term{j}, Imp(in(j), And(in(Select(inv, j)), Eq(Select(perm, Select(inv, j)), j))), []*Term{Select(inv, j)}))
	for _, l := range leaves(et) {
		key, so := elemHeap(et, l)
		regHeap(key, so, l)
		old := Select(st.get(key), arr)
		f := Fresh("sorted", ArrOf(l.sort))
		f.erLo, f.erHi = l.lo, l.hi
		st.assume(Forall([]*Term{j}, Ite(in(j), Eq(Select(f, j), Select(old, Select(perm, j))), Eq(Select(f, j), Select(old, j))), []*Term{Select(f, j)}))
		if cleanPat(old) {
			st.assume(Forall([]*Term{j}, Imp(in(j), Eq(Select(f, Select(inv, j)), Select(old, j))), []*Term{Select(old, j)}))
		}
		x.writeArr(st, key, arr, f)
	}
	n.ret()
}
