package main

import (
	"fmt"
	"go/types"
	"math/big"
	"regexp"
	"strings"
)

// ---------------------------------------------------------------- leaves: how Go types map to SMT terms

type lkind int

const (
	kInt lkind = iota
	kBool
	kReal
	kStr
	kPtr
	kMap
	kChan
	kFunc
	kIface
	kArr // slice: backing reference
	kOff
	kLen
	kCap
	kOpaque
	kArray
)

type Leaf struct {
	name   string
	sort   *Sort
	kind   lkind
	lo, hi *big.Int
	elem   *Leaf
	typ    types.Type
	// for the arr leaf of a slice the next three leaves are off, len, cap
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

var maxLen = pow2(47)

func qual(p *types.Package) string {
	return p.Name()
}

var aliasRE = regexp.MustCompile(`(^|[^.\w])(byte|rune)\b`)

// typeKey names a type; byte and rune are the types they stand for.
func typeKey(t types.Type) string {
	s := types.TypeString(t, qual)
	if strings.Contains(s, "byte") || strings.Contains(s, "rune") {
		s = aliasRE.ReplaceAllStringFunc(s, func(m string) string {
			return strings.Replace(strings.Replace(m, "byte", "uint8", 1), "rune", "int32", 1)
		})
	}
	return s
}

// core returns the underlying type, looking through type parameters whose
// constraint admits a single underlying shape.
func core(t types.Type) types.Type {
	if tp, ok := types.Unalias(t).(*types.TypeParam); ok {
		if u := coreOfIface(tp.Constraint().Underlying().(*types.Interface)); u != nil {
			return u
		}
		return tp
	}
	return t.Underlying()
}

func coreOfIface(it *types.Interface) types.Type {
	var res types.Type
	for i := 0; i < it.NumEmbeddeds(); i++ {
		var cand []types.Type
		switch e := types.Unalias(it.EmbeddedType(i)).(type) {
		case *types.Union:
			for j := 0; j < e.Len(); j++ {
				cand = append(cand, e.Term(j).Type())
			}
		default:
			if ii, ok := e.Underlying().(*types.Interface); ok {
				if u := coreOfIface(ii); u != nil {
					cand = append(cand, u)
				} else {
					continue
				}
			} else {
				cand = append(cand, e)
			}
		}
		for _, c := range cand {
			u := c.Underlying()
			if res == nil {
				res = u
			} else if !types.Identical(res, u) {
				// slices of different element types: keep a slice of the first (elements abstract)
				a, ok1 := res.(*types.Slice)
				_, ok2 := u.(*types.Slice)
				if ok1 && ok2 {
					res = a
					continue
				}
				return nil
			}
		}
	}
	return res
}

func intRange(b *types.Basic) (bits int, signed bool, ok bool) {
	switch b.Kind() {
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	}
	return 0, false, false
}

func bounds(bits int, signed bool) (lo, hi *big.Int) {
	if signed {
		h := pow2(bits - 1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, big.NewInt(1))
	}
	return new(big.Int), new(big.Int).Sub(pow2(bits), big.NewInt(1))
}

var repoPkgs = map[string]bool{}

// opaque: library structs with private fields (time.Time, sync.Mutex, atomic.Bool, netip.Addr ...) are one abstract value.
func opaque(t types.Type) bool {
	t = types.Unalias(t)
	n, ok := t.(*types.Named)
	if !ok {
		return false
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return false
	}
	if n.Obj().Pkg() == nil || repoPkgs[n.Obj().Pkg().Path()] {
		return false
	}
	if n.Obj().Pkg().Path() == "time" && (n.Obj().Name() == "Ticker" || n.Obj().Name() == "Timer") {
		return false
	}
	for i := 0; i < st.NumFields(); i++ {
		if !st.Field(i).Exported() {
			return true
		}
	}
	return false
}

var leafCache = map[string][]*Leaf{}

func leaves(t types.Type) []*Leaf {
	key := types.TypeString(t, nil)
	_, isTP := types.Unalias(t).(*types.TypeParam)
	if !isTP {
		if l, ok := leafCache[key]; ok {
			return l
		}
	}
	l := calcLeaves(t)
	if !isTP && !strings.Contains(key, "[") {
		leafCache[key] = l
	}
	return l
}

func calcLeaves(t types.Type) []*Leaf {
	zero := new(big.Int)
	if opaque(t) {
		if l := atomicLeaf(t); l != nil {
			return []*Leaf{l}
		}
		return []*Leaf{{sort: SInt, kind: kOpaque, typ: t}}
	}
	if tup, ok := t.(*types.Tuple); ok {
		var out []*Leaf
		for i := 0; i < tup.Len(); i++ {
			for _, l := range leaves(tup.At(i).Type()) {
				c := *l
				c.name = fmt.Sprintf("#%d%s", i, l.name)
				out = append(out, &c)
			}
		}
		return out
	}
	switch u := core(t).(type) {
	case *types.Basic:
		if bits, sg, ok := intRange(u); ok {
			lo, hi := bounds(bits, sg)
			return []*Leaf{{sort: SInt, kind: kInt, lo: lo, hi: hi, typ: t}}
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return []*Leaf{{sort: SBool, kind: kBool, typ: t}}
		case u.Info()&types.IsFloat != 0:
			return []*Leaf{{sort: SReal, kind: kReal, typ: t}}
		case u.Info()&types.IsString != 0:
			return []*Leaf{{sort: SInt, kind: kStr, typ: t}}
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return []*Leaf{{sort: SInt, kind: kOpaque, typ: t}}
		}
		return []*Leaf{{sort: SInt, kind: kOpaque, typ: t}}
	case *types.Pointer:
		return []*Leaf{{sort: SInt, kind: kPtr, lo: zero, typ: t}}
	case *types.Map:
		return []*Leaf{{sort: SInt, kind: kMap, lo: zero, typ: t}}
	case *types.Chan:
		return []*Leaf{{sort: SInt, kind: kChan, lo: zero, typ: t}}
	case *types.Signature:
		return []*Leaf{{sort: SInt, kind: kFunc, lo: zero, typ: t}}
	case *types.Interface:
		return []*Leaf{{sort: SInt, kind: kIface, lo: zero, typ: t}}
	case *types.Slice:
		return []*Leaf{
			{name: ".arr", sort: SInt, kind: kArr, lo: zero, typ: t},
			{name: ".off", sort: SInt, kind: kOff, lo: zero, hi: maxLen, typ: t},
			{name: ".len", sort: SInt, kind: kLen, lo: zero, hi: maxLen, typ: t},
			{name: ".cap", sort: SInt, kind: kCap, lo: zero, hi: maxLen, typ: t},
		}
	case *types.Struct:
		var out []*Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				c := *l
				c.name = "." + f.Name() + l.name
				out = append(out, &c)
			}
		}
		return out
	case *types.Array:
		var out []*Leaf
		for _, l := range leaves(u.Elem()) {
			out = append(out, &Leaf{name: "[]" + l.name, sort: ArrOf(l.sort), kind: kArray, elem: l, lo: l.lo, hi: l.hi, typ: t})
		}
		return out
	case *types.Tuple:
		return calcLeaves(u)
	}
	return []*Leaf{{sort: SInt, kind: kOpaque, typ: t}}
}

func zeroOf(l *Leaf) *Term {
	if l.sort == SInt {
		return Int64(0)
	}
	if l.sort == SBool {
		return TFalse
	}
	if l.sort == SReal {
		return RealConst("0.0")
	}
	return ConstArr(l.sort, zeroOf(l.elem))
}

func zeroVal(t types.Type) Val {
	var v Val
	for _, l := range leaves(t) {
		v.ts = append(v.ts, zeroOf(l))
	}
	return v
}

func isAgg(t types.Type) bool { // aggregates that live at a reference
	if opaque(t) {
		return false
	}
	switch core(t).(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func structOf(t types.Type) *types.Struct {
	if opaque(t) {
		return nil
	}
	s, _ := core(t).(*types.Struct)
	return s
}

func deref(t types.Type) types.Type {
	if p, ok := core(t).(*types.Pointer); ok {
		return p.Elem()
	}
	return nil
}

// refSize: how many reference slots an object of type t takes (1 + nested aggregates).
func refSize(t types.Type) int64 {
	if s := structOf(t); s != nil {
		n := int64(1)
		for i := 0; i < s.NumFields(); i++ {
			if isAgg(s.Field(i).Type()) {
				n += refSize(s.Field(i).Type())
			}
		}
		return n
	}
	return 1
}

// slotOf: reference offset of nested aggregate field i.
func slotOf(s *types.Struct, i int) int64 {
	n := int64(1)
	for k := 0; k < i; k++ {
		if isAgg(s.Field(k).Type()) {
			n += refSize(s.Field(k).Type())
		}
	}
	return n
}

// structKey names the heap arrays of a struct type. Instances of a generic type share nothing.
func structKey(t types.Type) string { return typeKey(t) }

func elemHeap(elem types.Type, l *Leaf) (key string, s *Sort) {
	return "E:" + typeKey(elem) + l.name, ArrOf(ArrOf(l.sort))
}

func fieldHeap(t types.Type, fname string, l *Leaf) (key string, s *Sort) {
	return "F:" + structKey(t) + "." + fname + l.name, ArrOf(l.sort)
}

func tupleSlice(tup *types.Tuple, i int) (from, to int) {
	for k := 0; k < i; k++ {
		from += len(leaves(tup.At(k).Type()))
	}
	return from, from + len(leaves(tup.At(i).Type()))
}

// atomicLeaf: the cell of a sync/atomic type, with the range of its value.
func atomicLeaf(t types.Type) *Leaf {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != "sync/atomic" {
		return nil
	}
	num := func(bits int, sg bool) *Leaf {
		lo, hi := bounds(bits, sg)
		return &Leaf{sort: SInt, kind: kInt, lo: lo, hi: hi, typ: t}
	}
	switch n.Obj().Name() {
	case "Bool":
		return &Leaf{sort: SInt, kind: kInt, lo: new(big.Int), hi: big.NewInt(1), typ: t}
	case "Int32":
		return num(32, true)
	case "Uint32":
		return num(32, false)
	case "Int64":
		return num(64, true)
	case "Uint64":
		return num(64, false)
	case "Pointer":
		return &Leaf{sort: SInt, kind: kPtr, lo: new(big.Int), typ: t}
	}
	return nil
}

// cKey is the heap of variables of a type that live on their own.
func cKey(t types.Type) string { return "C:" + typeKey(t) }
