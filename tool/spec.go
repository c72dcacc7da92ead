package main

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- expressions

type Expr struct {
	op   string // int str ident meta field index slice call un bin forall exists
	name string
	ival *big.Int
	args []*Expr
	bind []string
}

func (e *Expr) String() string {
	switch e.op {
	case "int":
		return e.ival.String()
	case "str":
		return strconv.Quote(e.name)
	case "ident", "meta":
		return e.name
	case "field":
		return e.args[0].String() + "." + e.name
	case "index":
		return e.args[0].String() + "[" + e.args[1].String() + "]"
	case "slice":
		s := e.args[0].String() + "["
		if e.args[1] != nil {
			s += e.args[1].String()
		}
		s += ":"
		if e.args[2] != nil {
			s += e.args[2].String()
		}
		return s + "]"
	case "call":
		var a []string
		for _, x := range e.args {
			a = append(a, x.String())
		}
		return e.name + "(" + strings.Join(a, ", ") + ")"
	case "un":
		return e.name + e.args[0].String()
	case "bin":
		return "(" + e.args[0].String() + " " + e.name + " " + e.args[1].String() + ")"
	case "forall", "exists", "each", "forallt":
		s := e.op + "(" + strings.Join(e.bind, " ")
		for _, a := range e.args {
			if a != nil {
				s += ", " + a.String()
			}
		}
		return s + ")"
	}
	return "?" + e.op
}

type lexer struct {
	src  string
	pos  int
	tok  string
	kind byte // i ident, n number, s string, o operator, e eof
	err  error
}

func (l *lexer) next() {
	for l.pos < len(l.src) && unicode.IsSpace(rune(l.src[l.pos])) {
		l.pos++
	}
	if l.pos >= len(l.src) {
		l.kind, l.tok = 'e', ""
		return
	}
	c := l.src[l.pos]
	st := l.pos
	isID := func(c byte) bool {
		return c == '_' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	switch {
	case c >= '0' && c <= '9':
		for l.pos < len(l.src) && (isID(l.src[l.pos])) {
			l.pos++
		}
		l.kind = 'n'
	case isID(c):
		for l.pos < len(l.src) && isID(l.src[l.pos]) {
			l.pos++
		}
		l.kind = 'i'
	case c == '"':
		l.pos++
		for l.pos < len(l.src) && l.src[l.pos] != '"' {
			if l.src[l.pos] == '\\' {
				l.pos++
			}
			l.pos++
		}
		l.pos++
		l.kind = 's'
	case c == '\'':
		l.pos++
		for l.pos < len(l.src) && l.src[l.pos] != '\'' {
			if l.src[l.pos] == '\\' {
				l.pos++
			}
			l.pos++
		}
		l.pos++
		l.kind = 'c'
	default:
		l.kind = 'o'
		for _, op := range []string{"<==>", "==>", "&&", "||", "==", "!=", "<=", ">=", "<<", ">>"} {
			if strings.HasPrefix(l.src[l.pos:], op) {
				l.pos += len(op)
				l.tok = op
				return
			}
		}
		l.pos++
	}
	l.tok = l.src[st:l.pos]
}

func parseExpr(src string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s in %q", s, src)
				return
			}
			panic(r)
		}
	}()
	l := &lexer{src: src}
	l.next()
	e = l.expr(0)
	if l.kind != 'e' {
		panic("trailing " + l.tok)
	}
	return e, nil
}

func parseExprList(src string) (es []*Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(string); ok {
				err = fmt.Errorf("%s in %q", s, src)
				return
			}
			panic(r)
		}
	}()
	l := &lexer{src: src}
	l.next()
	for {
		es = append(es, l.expr(0))
		if l.tok == "," {
			l.next()
			continue
		}
		break
	}
	if l.kind != 'e' {
		panic("trailing " + l.tok)
	}
	return es, nil
}

var prec = map[string]int{
	"<==>": 1, "==>": 2, "||": 3, "&&": 4,
	"==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5,
	"+": 6, "-": 6, "*": 7, "/": 7, "%": 7, "<<": 7, ">>": 7,
}

func (l *lexer) expr(min int) *Expr {
	lhs := l.unary()
	for l.kind == 'o' {
		p, ok := prec[l.tok]
		if !ok || p < min {
			break
		}
		op := l.tok
		l.next()
		var rhs *Expr
		if op == "==>" {
			rhs = l.expr(p)
		} else {
			rhs = l.expr(p + 1)
		}
		lhs = &Expr{op: "bin", name: op, args: []*Expr{lhs, rhs}}
	}
	return lhs
}

func (l *lexer) unary() *Expr {
	if l.kind == 'o' && (l.tok == "!" || l.tok == "-" || l.tok == "*") {
		op := l.tok
		l.next()
		return &Expr{op: "un", name: op, args: []*Expr{l.unary()}}
	}
	return l.postfix(l.primary())
}

func (l *lexer) expect(t string) {
	if l.tok != t {
		panic(fmt.Sprintf("expected %s, got %q", t, l.tok))
	}
	l.next()
}

func (l *lexer) primary() *Expr {
	switch l.kind {
	case 'n':
		v, ok := new(big.Int).SetString(l.tok, 0)
		if !ok {
			panic("bad number " + l.tok)
		}
		l.next()
		return &Expr{op: "int", ival: v}
	case 'c':
		r, _, _, err := strconv.UnquoteChar(l.tok[1:len(l.tok)-1], '\'')
		if err != nil {
			panic("bad char " + l.tok)
		}
		l.next()
		return &Expr{op: "int", ival: big.NewInt(int64(r))}
	case 's':
		s, err := strconv.Unquote(l.tok)
		if err != nil {
			panic("bad string " + l.tok)
		}
		l.next()
		return &Expr{op: "str", name: s}
	case 'i':
		n := l.tok
		l.next()
		if n == "forallt" { // forallt(q, trigger, .., body): explicit triggers
			l.expect("(")
			e := &Expr{op: n}
			for l.kind == 'i' {
				e.bind = append(e.bind, l.tok)
				l.next()
			}
			l.expect(",")
			es := []*Expr{l.expr(0)}
			for l.tok == "," {
				l.next()
				es = append(es, l.expr(0))
			}
			l.expect(")")
			e.args = append([]*Expr{es[len(es)-1]}, es[:len(es)-1]...)
			return e
		}
		if n == "forall" || n == "exists" || n == "each" {
			l.expect("(")
			e := &Expr{op: n}
			for l.kind == 'i' {
				e.bind = append(e.bind, l.tok)
				l.next()
			}
			l.expect(",")
			first := l.expr(0)
			if l.tok == "," {
				l.next()
				hi := l.expr(0)
				l.expect(",")
				body := l.expr(0)
				e.args = []*Expr{body, first, hi}
			} else {
				e.args = []*Expr{first}
			}
			l.expect(")")
			return e
		}
		if n[0] == '$' {
			return &Expr{op: "meta", name: n}
		}
		if l.tok == "(" {
			l.next()
			e := &Expr{op: "call", name: n}
			for l.tok != ")" {
				e.args = append(e.args, l.expr(0))
				if l.tok == "," {
					l.next()
				} else if l.tok != ")" {
					panic("expected , or ) in call, got " + l.tok)
				}
			}
			l.next()
			return e
		}
		return &Expr{op: "ident", name: n}
	case 'o':
		if l.tok == "(" {
			l.next()
			e := l.expr(0)
			l.expect(")")
			return e
		}
	}
	panic("unexpected token " + l.tok)
}

func (l *lexer) postfix(e *Expr) *Expr {
	for {
		switch {
		case l.tok == "." && l.kind == 'o':
			l.next()
			n := l.tok
			if l.kind != 'i' && n != "*" {
				panic("bad field " + n)
			}
			l.next()
			if l.tok == "(" && n != "*" {
				// qualified call such as pkg.f(x): treated as f with a dotted name
				l.next()
				c := &Expr{op: "call", name: e.String() + "." + n}
				for l.tok != ")" {
					c.args = append(c.args, l.expr(0))
					if l.tok == "," {
						l.next()
					}
				}
				l.next()
				e = c
				continue
			}
			e = &Expr{op: "field", name: n, args: []*Expr{e}}
		case l.tok == "[" && l.kind == 'o':
			l.next()
			var lo *Expr
			if l.tok != ":" {
				lo = l.expr(0)
			}
			if l.tok == ":" {
				l.next()
				var hi *Expr
				if l.tok != "]" {
					hi = l.expr(0)
				}
				l.expect("]")
				e = &Expr{op: "slice", args: []*Expr{e, lo, hi}}
				continue
			}
			l.expect("]")
			e = &Expr{op: "index", args: []*Expr{e, lo}}
		default:
			return e
		}
	}
}

// ---------------------------------------------------------------- contracts

type clause struct {
	label   string
	props   []string
	e       *Expr
	src     string
	assumed bool // assumed at call sites, not checked
}

type Contract struct {
	kind     string // func iface functype extern
	pkg      string
	name     string // Func, Type.Method, or full name for extern
	params   []string
	results  []string
	props    []string
	requires []*clause
	ensures  []*clause
	loops    []*clause
	modifies []*Expr
	modAny   bool
	panics   *Expr
	mayPanic bool // "maypanic e": panics only when e, but need not
	unroll   int
	trusted  bool
	nilable  map[string]bool
	fold     []string        // opaque definitions given to this unit as quantified equations
	reveal   map[string]bool // opaque definitions this unit may look into
	holds    []*Expr
	lockmode string
	sets     []*ghostSet // ghost updates at exit
	uses     []string // lemmas (proved on their own) this unit may assume
	named    string // updates of the fields of this type are given names at calls and loops, so that triggers match
	absmul   bool        // products and quotients of variables are uninterpreted functions in this unit
	defines  []*recDef   // recursive definitions used in the proof
	unfolds  []*Expr     // where their equations are used
	inline   bool
	noret    bool
	callback bool
	havocG   bool
	consts   map[string]string
	file     string
	line     int
}

type ghostSet struct {
	name string
	at   []*Expr // ghost arguments
	val  *Expr
	bind string // binder for function-valued ghosts
	src  string
}

type modset struct {
	params []string
	items  []*Expr
}

type Def struct {
	params []string
	body   *Expr
	opaque bool
}

type lemma struct {
	name  string
	pkg   string
	props []string
	e     *Expr
	src   string
	bind  []string
	using []*Expr
}

type axiom struct {
	pkg string
	e   *Expr
	fn  string
	loc bool // only for units of the same package
}

// pureDecl: the results of a function under contract, seen as a function value, are given by a logic
// function; its contract then holds of that logic function.
type pureDecl struct {
	c      *Contract
	fn     string
	lo, hi *Expr
}

// substIdent replaces an identifier in an expression.
func substIdent(e *Expr, name string, by *Expr) *Expr {
	if e == nil {
		return nil
	}
	if e.op == "ident" && e.name == name {
		return by
	}
	n := *e
	n.args = make([]*Expr, len(e.args))
	for i, a := range e.args {
		n.args[i] = substIdent(a, name, by)
	}
	return &n
}

type globalInv struct {
	global string // the variable whose initialisation establishes it
	pkg    string
	name   string
	e      *Expr
	props  []string
	src    string
}

type SpecDB struct {
	contracts map[string]*Contract // key pkg + "." + name
	ifaces    map[string]*Contract
	ftypes    map[string]*Contract
	externs   map[string]*Contract
	defs      map[string]*Def
	logic     map[string]*Sort
	ghosts    map[string]int
	modsets   map[string]*modset
	guards    map[string]string // "pkg.T.f" -> mutex field
	nonnil    map[string]bool
	ginvs     []*globalInv
	lemmas    []*lemma
	abstract  map[string]bool
	order     []*Contract
	autoprop  map[string][]string // package -> default props
	axioms    []*axiom
	pures     []*pureDecl
	files     []string
}

func newSpecDB() *SpecDB {
	return &SpecDB{contracts: map[string]*Contract{}, ifaces: map[string]*Contract{}, ftypes: map[string]*Contract{}, externs: map[string]*Contract{},
		defs: map[string]*Def{}, logic: map[string]*Sort{}, ghosts: map[string]int{}, modsets: map[string]*modset{}, guards: map[string]string{}, nonnil: map[string]bool{}, abstract: map[string]bool{}}
}

var keywords = map[string]bool{"named": true, "uses": true, "absmul": true, "define": true, "unfold": true, "package": true, "def": true, "modset": true, "ghost": true, "logic": true, "axiom": true, "lemma": true, "guard": true, "nonnil": true,
	"globalinv": true, "opaque": true, "reveal": true, "fold": true, "pure": true, "func": true, "iface": true, "functype": true, "extern": true, "prop": true, "requires": true, "ensures": true, "assumes": true, "modifies": true,
	"loop": true, "panics": true, "maypanic": true, "unroll": true, "trusted": true, "holds": true, "set": true, "inline": true, "nilable": true, "using": true, "abstract": true, "lockfree": true, "noreturn": true, "modifiesany": true, "const": true}

// recDef is a function of the naturals defined by recursion inside one contract; its equations are only used
// at the points named by unfold clauses.
type recDef struct {
	name, bind string
	more       []string // further parameters, passed on unchanged
	base, step *Expr
}

// openDefines lists the definitions of a contract that depend on its parameters: clauses that use them are not
// assumed at call sites.
func openDefines(c *Contract) map[string]bool {
	out := map[string]bool{}
	for changed := true; changed; {
		changed = false
		for _, d := range c.defines {
			if out[d.name] {
				continue
			}
			own := map[string]bool{d.bind: true}
			for _, m := range d.more {
				own[m] = true
			}
			var open bool
			var walk func(e *Expr)
			walk = func(e *Expr) {
				if e == nil {
					return
				}
				for _, p := range append(append([]string{}, c.params...), c.results...) {
					if e.op == "ident" && e.name == p && !own[p] {
						open = true
					}
				}
				if out[e.name] || e.op == "field" || e.op == "index" || e.op == "call" && (e.name == "old" || e.name == "contents") {
					open = true
				}
				for _, a := range e.args {
					walk(a)
				}
			}
			walk(d.base)
			walk(d.step)
			if open {
				out[d.name] = true
				changed = true
			}
		}
	}
	return out
}

func usesName(e *Expr, names map[string]bool) bool {
	if e == nil {
		return false
	}
	if names[e.name] && (e.op == "call" || e.op == "ident") {
		return true
	}
	for _, a := range e.args {
		if usesName(a, names) {
			return true
		}
	}
	return false
}

// checkDefines checks that the recursive definitions of a contract are well-founded: a step may use earlier
// definitions at j and j - 1 and itself and later ones at j - 1 only; a base may use earlier ones at 0 only.
func checkDefines(ds []*recDef) error {
	idx := map[string]int{}
	for i, d := range ds {
		idx[d.name] = i
	}
	for i, d := range ds {
		var walk func(e *Expr, step bool) error
		walk = func(e *Expr, step bool) error {
			if e == nil {
				return nil
			}
			if k, ok := idx[e.name]; ok && (e.op == "call" || e.op == "ident") {
				a := ""
				if len(e.args) > 0 {
					a = e.args[0].String()
				}
				pred := a == d.bind+" - 1" || a == "("+d.bind+" - 1)" || a == d.bind+"-1" || a == "("+d.bind+"-1)"
				if !(step && pred || step && a == d.bind && k < i || !step && a == "0" && k < i) {
					return fmt.Errorf("define %s: %s is not well-founded", d.name, e.String())
				}
			}
			for _, a := range e.args {
				if err := walk(a, step); err != nil {
					return err
				}
			}
			return nil
		}
		if err := walk(d.base, false); err != nil {
			return err
		}
		if err := walk(d.step, true); err != nil {
			return err
		}
	}
	return nil
}

func parseSig(s string) (name string, params, results []string, err error) {
	i := strings.IndexByte(s, '(')
	if i < 0 {
		return strings.TrimSpace(s), nil, nil, nil
	}
	name = strings.TrimSpace(s[:i])
	j := strings.IndexByte(s[i:], ')')
	if j < 0 {
		return "", nil, nil, fmt.Errorf("bad signature %q", s)
	}
	sp := func(x string) (out []string) {
		for _, p := range strings.Split(x, ",") {
			p = strings.TrimSpace(p)
			if p != "" {
				out = append(out, p)
			}
		}
		return
	}
	params = sp(s[i+1 : i+j])
	rest := strings.TrimSpace(s[i+j+1:])
	rest = strings.TrimPrefix(rest, "(")
	rest = strings.TrimSuffix(rest, ")")
	results = sp(rest)
	return
}

func (db *SpecDB) loadFile(path string) error {
	data, err := os.ReadFile(path)
	if err != nil {
		return err
	}
	db.files = append(db.files, path)
	type rawLine struct {
		txt  string
		line int
	}
	var lines []rawLine
	for n, l := range strings.Split(string(data), "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if i := strings.IndexFunc(t, unicode.IsSpace); i >= 0 {
			w = t[:i]
		}
		if keywords[w] {
			lines = append(lines, rawLine{t, n + 1})
		} else {
			if len(lines) == 0 {
				return fmt.Errorf("%s:%d: unexpected %q", path, n+1, t)
			}
			lines[len(lines)-1].txt += " " + t
		}
	}
	pkg := ""
	var cur *Contract
	var curLemma *lemma
	for _, rl := range lines {
		fail := func(e error) error { return fmt.Errorf("%s:%d: %v", path, rl.line, e) }
		w, rest := rl.txt, ""
		if i := strings.IndexFunc(rl.txt, unicode.IsSpace); i >= 0 {
			w, rest = rl.txt[:i], strings.TrimSpace(rl.txt[i:])
		}
		mk := func() (*clause, error) {
			c := &clause{src: rest}
			r := rest
			if strings.HasPrefix(r, "[") {
				j := strings.IndexByte(r, ']')
				if j > 0 && len(r) > 1 && r[1] == 'C' {
					c.props = strings.Fields(strings.ReplaceAll(r[1:j], ",", " "))
					r = strings.TrimSpace(r[j+1:])
				}
			}
			k := 0
			for k < len(r) && (r[k] == '_' || r[k] == '-' || unicode.IsLetter(rune(r[k])) || unicode.IsDigit(rune(r[k]))) {
				k++
			}
			if k > 0 && k < len(r) && r[k] == ':' {
				c.label = r[:k]
				r = r[k+1:]
			}
			e, err := parseExpr(r)
			c.e = e
			return c, err
		}
		switch w {
		case "package":
			pkg = rest
			cur = nil
		case "def", "opaque":
			i := strings.Index(rest, "=")
			n, ps, _, err := parseSig(rest[:i])
			if err != nil {
				return fail(err)
			}
			e, err := parseExpr(rest[i+1:])
			if err != nil {
				return fail(err)
			}
			if db.defs[n] != nil {
				return fail(fmt.Errorf("duplicate def %s", n))
			}
			db.defs[n] = &Def{ps, e, w == "opaque"}
		case "modset":
			i := strings.Index(rest, "=")
			n, ps, _, err := parseSig(rest[:i])
			if err != nil {
				return fail(err)
			}
			es, err := parseExprList(rest[i+1:])
			if err != nil {
				return fail(err)
			}
			db.modsets[n] = &modset{ps, es}
		case "ghost":
			f := strings.Fields(rest)
			ar := 1
			if len(f) > 1 {
				ar, _ = strconv.Atoi(f[1])
			}
			db.ghosts[f[0]] = ar
		case "logic":
			f := strings.Fields(rest)
			s := SInt
			if len(f) > 1 && f[1] == "Bool" {
				s = SBool
			}
			if len(f) > 1 && f[1] == "Real" {
				s = SReal
			}
			db.logic[f[0]] = s
		case "axiom":
			e, err := parseExpr(rest)
			if err != nil {
				return fail(err)
			}
			db.axioms = append(db.axioms, &axiom{pkg: pkg, e: e})
		case "abstract":
			db.abstract[rest] = true
		case "guard":
			// guard T.mu: f1, f2
			i := strings.IndexByte(rest, ':')
			tm := strings.TrimSpace(rest[:i])
			j := strings.IndexByte(tm, '.')
			for _, f := range strings.Split(rest[i+1:], ",") {
				db.guards[pkg+"."+tm[:j]+"."+strings.TrimSpace(f)] = tm[j+1:]
			}
		case "nonnil":
			for _, f := range strings.Split(rest, ",") {
				db.nonnil[pkg+"."+strings.TrimSpace(f)] = true
			}
		case "globalinv":
			gn := rest
			if i := strings.IndexAny(rest, " \t"); i > 0 {
				gn, rest = rest[:i], strings.TrimSpace(rest[i:])
			}
			c, err := mk()
			if err != nil {
				return fail(err)
			}
			db.ginvs = append(db.ginvs, &globalInv{pkg: pkg, global: gn, name: c.label, e: c.e, props: c.props, src: c.src})
		case "lemma":
			// lemma [C14] name(x, y): expr
			c := rest
			lm := &lemma{pkg: pkg, src: rest}
			if strings.HasPrefix(c, "[") {
				j := strings.IndexByte(c, ']')
				lm.props = strings.Fields(strings.ReplaceAll(c[1:j], ",", " "))
				c = strings.TrimSpace(c[j+1:])
			}
			i := strings.Index(c, ":")
			n, ps, _, err := parseSig(c[:i])
			if err != nil {
				return fail(err)
			}
			lm.name, lm.bind = n, ps
			lm.e, err = parseExpr(c[i+1:])
			if err != nil {
				return fail(err)
			}
			db.lemmas = append(db.lemmas, lm)
			curLemma = lm
			_ = curLemma
		case "func", "iface", "functype", "extern":
			n, ps, rs, err := parseSig(rest)
			if err != nil {
				return fail(err)
			}
			cur = &Contract{kind: w, pkg: pkg, name: n, params: ps, results: rs, file: path, line: rl.line, nilable: map[string]bool{}, reveal: map[string]bool{}}
			switch w {
			case "func":
				if db.contracts[pkg+"."+n] != nil {
					return fail(fmt.Errorf("duplicate contract %s", n))
				}
				db.contracts[pkg+"."+n] = cur
				db.order = append(db.order, cur)
			case "iface":
				db.ifaces[n] = cur
				cur.trusted = true
			case "functype":
				if !strings.Contains(n, ".") {
					n = pkg + "." + n
				}
				db.ftypes[n] = cur
				cur.trusted = true
			case "extern":
				db.externs[n] = cur
				cur.trusted = true
			}
		default:
			if cur == nil {
				return fail(fmt.Errorf("clause %q outside a contract", w))
			}
			switch w {
			case "prop":
				cur.props = append(cur.props, strings.Fields(strings.ReplaceAll(rest, ",", " "))...)
			case "requires", "ensures", "assumes", "loop":
				c, err := mk()
				if err != nil {
					return fail(err)
				}
				if c.label == "" {
					c.label = fmt.Sprintf("%s%d", w[:3], len(cur.requires)+len(cur.ensures)+len(cur.loops))
				}
				switch w {
				case "requires":
					cur.requires = append(cur.requires, c)
				case "ensures", "assumes":
					c.assumed = w == "assumes"
					cur.ensures = append(cur.ensures, c)
				case "loop":
					cur.loops = append(cur.loops, c)
				}
			case "modifies":
				es, err := parseExprList(rest)
				if err != nil {
					return fail(err)
				}
				cur.modifies = append(cur.modifies, es...)
			case "modifiesany":
				cur.modAny = true
			case "panics", "maypanic":
				cur.mayPanic = w == "maypanic"
				e, err := parseExpr(rest)
				if err != nil {
					return fail(err)
				}
				cur.panics = e
			case "unroll":
				cur.unroll, _ = strconv.Atoi(rest)
			case "trusted":
				cur.trusted = true
			case "pure":
				// pure L lo hi : L(f, x) is the result for every argument lo <= x < hi
				f := strings.Fields(rest)
				if len(f) != 3 || len(cur.params) != 1 || len(cur.results) != 1 {
					return fail(fmt.Errorf("pure needs a logic function and the range of the only parameter"))
				}
				lo, err := parseExpr(f[1])
				if err != nil {
					return fail(err)
				}
				hi, err := parseExpr(f[2])
				if err != nil {
					return fail(err)
				}
				db.pures = append(db.pures, &pureDecl{c: cur, fn: f[0], lo: lo, hi: hi})
			case "inline":
				cur.inline = true
			case "reveal":
				for _, p := range strings.Split(rest, ",") {
					cur.reveal[strings.TrimSpace(p)] = true
				}
			case "fold":
				for _, p := range strings.Split(rest, ",") {
					cur.fold = append(cur.fold, strings.TrimSpace(p))
				}
			case "noreturn":
				cur.noret = true
			case "uses":
				for _, p := range strings.Split(rest, ",") {
					cur.uses = append(cur.uses, strings.TrimSpace(p))
				}
			case "named":
				cur.named = rest
			case "absmul":
				cur.absmul = true
			case "nilable":
				for _, p := range strings.Split(rest, ",") {
					cur.nilable[strings.TrimSpace(p)] = true
				}
			case "holds":
				es, err := parseExprList(rest)
				if err != nil {
					return fail(err)
				}
				cur.holds = append(cur.holds, es...)
			case "const":
				// const param = FuncName : verify only for calls with this function argument
			case "define":
				// define name(j) := base ; step   (integer function of j >= 0, defined by recursion on j)
				i := strings.Index(rest, ":=")
				semi := strings.Index(rest, ";")
				if i < 0 || semi < i {
					return fail(fmt.Errorf("define needs name(j) := base ; step"))
				}
				n, ps, _, err := parseSig(strings.TrimSpace(rest[:i]))
				if err != nil || len(ps) == 0 {
					return fail(fmt.Errorf("define needs a parameter"))
				}
				so := SInt
				if strings.HasPrefix(n, "real ") {
					so, n = SReal, strings.TrimSpace(n[5:])
				}
				b, err := parseExpr(rest[i+2 : semi])
				if err != nil {
					return fail(err)
				}
				e, err := parseExpr(rest[semi+1:])
				if err != nil {
					return fail(err)
				}
				if _, ok := db.logic[n]; ok {
					return fail(fmt.Errorf("%s defined twice", n))
				}
				db.logic[n] = so
				d := &recDef{name: n, bind: ps[0], more: ps[1:], base: b, step: e}
				cur.defines = append(cur.defines, d)
			case "unfold":
				es, err := parseExprList(rest)
				if err != nil {
					return fail(err)
				}
				cur.unfolds = append(cur.unfolds, es...)
			case "set":
				// set name(x) = expr   or  set name(x)[k] = expr
				i := strings.Index(rest, ":=")
				if i < 0 {
					return fail(fmt.Errorf("set needs :="))
				}
				l, err := parseExpr(rest[:i])
				if err != nil {
					return fail(err)
				}
				v, err := parseExpr(rest[i+2:])
				if err != nil {
					return fail(err)
				}
				gs := &ghostSet{val: v, src: rest}
				if l.op == "index" {
					gs.bind = l.args[1].name
					l = l.args[0]
				}
				gs.name, gs.at = l.name, l.args
				cur.sets = append(cur.sets, gs)
			default:
				return fail(fmt.Errorf("unknown clause %q", w))
			}
		}
	}
	return nil
}

func (db *SpecDB) loadDir(dir string) error {
	fs, err := filepath.Glob(filepath.Join(dir, "*.vc"))
	if err != nil {
		return err
	}
	sort.Strings(fs)
	for _, f := range fs {
		if err := db.loadFile(f); err != nil {
			return err
		}
	}
	for n := range db.defs {
		if _, ok := db.ghosts[n]; ok || db.logic[n] != nil {
			return fmt.Errorf("%s is both a def and a ghost or logic function", n)
		}
	}
	for _, p := range db.pures {
		app := &Expr{op: "call", name: p.fn, args: []*Expr{{op: "ident", name: p.c.name}, {op: "ident", name: p.c.params[0]}}}
		for _, en := range p.c.ensures {
			e := substIdent(en.e, p.c.results[0], app)
			db.axioms = append(db.axioms, &axiom{pkg: p.c.pkg, fn: p.c.name, loc: true, e: &Expr{op: "forall", bind: []string{p.c.params[0]}, args: []*Expr{e, p.lo, p.hi}}})
		}
	}
	return nil
}

func hasProp(ps []string, p string) bool {
	for _, x := range ps {
		if x == p {
			return true
		}
	}
	return false
}

// clauseFor reports whether a clause counts for property p.
func (c *clause) forProp(p string) bool {
	return len(c.props) == 0 || p == "" || hasProp(c.props, p)
}
