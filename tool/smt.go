package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// query is a self-contained SMT problem: facts /\ not goal.
type query struct {
	decls []string
	body  []string
	vals  []*Term // ground terms worth printing in a model
}

type collector struct {
	seen   map[*Term]bool
	order  []*Term
	uses   map[*Term]int
	vars   map[string]*Sort
	funs   map[string]string
	ranges []*Term
	rows    []*Term
	rowSeen map[*Term]*Term
}

func newCollector() *collector {
	return &collector{rowSeen: map[*Term]*Term{}, seen: map[*Term]bool{}, uses: map[*Term]int{}, vars: map[string]*Sort{}, funs: map[string]string{}}
}

func (c *collector) visit(t *Term) {
	c.uses[t]++
	if c.seen[t] {
		return
	}
	c.seen[t] = true
	for _, a := range t.args {
		c.visit(a)
	}
	for _, p := range t.pats {
		for _, a := range p {
			c.visit(a)
		}
	}
	switch t.op {
	case "var":
		c.vars[t.name] = t.sort
	case "app":
		var sb strings.Builder
		for i, a := range t.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(a.sort.name)
		}
		c.funs[t.name] = fmt.Sprintf("(declare-fun |%s| (%s) %s)", t.name, sb.String(), t.sort.name)
	}
	if t.sort == SInt && t.rng && !t.bound && (t.op == "var" || t.op == "select" || t.op == "app") {
		c.ranges = append(c.ranges, t)
	}
	if t.sort == SInt && t.bound && t.rng && t.lo != nil && t.hi != nil && t.op == "select" && !t.args[0].bound && c.rowSeen[t.args[0]] == nil {
		c.rowSeen[t.args[0]] = t
		c.rows = append(c.rows, t)
	}
	c.order = append(c.order, t)
}

// buildQuery renders facts /\ not(goal) (goal may be nil).
func buildQuery(facts []*Term, goal *Term) string {
	c := newCollector()
	for _, f := range facts {
		c.visit(f)
	}
	if goal != nil {
		c.visit(goal)
	}
	var sb strings.Builder
	var names []string
	for n := range c.vars {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		fmt.Fprintf(&sb, "(declare-const |%s| %s)\n", n, c.vars[n].name)
	}
	names = names[:0]
	for n := range c.funs {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		sb.WriteString(c.funs[n] + "\n")
	}
	defs := map[*Term]string{}
	for _, t := range c.order {
		if t.bound || len(t.args) == 0 || c.uses[t] < 2 {
			continue
		}
		n := fmt.Sprintf("$d%d", t.id)
		fmt.Fprintf(&sb, "(define-fun %s () %s ", n, t.sort.name)
		t.writeBody(&sb, defs)
		sb.WriteString(")\n")
		defs[t] = n
	}
	for _, t := range c.ranges {
		if t.lo != nil {
			sb.WriteString("(assert (<= " + t.lo2() + " " + t.smt(defs) + "))\n")
		}
		if t.hi != nil {
			sb.WriteString("(assert (<= " + t.smt(defs) + " " + t.hi.String() + "))\n")
		}
	}
	for _, t := range c.rows { // elements read under a quantifier
		r := t.args[0].smt(defs)
		fmt.Fprintf(&sb, "(assert (forall ((|rj| Int)) (! (and (<= %s (select %s |rj|)) (<= (select %s |rj|) %s)) :pattern ((select %s |rj|)))))\n", t.lo2(), r, r, t.hi, r)
	}
	for _, f := range facts {
		if f == TTrue {
			continue
		}
		sb.WriteString("(assert " + f.smt(defs) + ")\n")
	}
	if goal != nil {
		sb.WriteString("(assert (not " + goal.smt(defs) + "))\n")
	}
	return sb.String()
}

func (t *Term) lo2() string {
	if t.lo.Sign() < 0 {
		return "(- " + t.lo.String()[1:] + ")"
	}
	return t.lo.String()
}

// ---------------------------------------------------------------- interactive z3 (feasibility, simplification)

type z3proc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
	n   int
}

var solverTime int64 // nanoseconds, atomic
var solverCalls int64

func startZ3() *z3proc {
	cmd := exec.Command("z3-new", "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	p := &z3proc{cmd: cmd, in: in, out: bufio.NewReader(out)}
	return p
}

func (p *z3proc) close() {
	p.in.Close()
	p.cmd.Process.Kill()
	p.cmd.Wait()
}

// check returns "sat", "unsat" or "unknown".
func (p *z3proc) check(q string, ms int) string {
	t0 := time.Now()
	defer func() {
		atomic.AddInt64(&solverTime, int64(time.Since(t0)))
		atomic.AddInt64(&solverCalls, 1)
	}()
	io.WriteString(p.in, "(reset)\n(set-option :timeout "+fmt.Sprint(ms*6)+")\n(set-option :rlimit "+fmt.Sprint(ms*2500)+")\n(set-option :smt.mbqi false)\n"+q+"(check-sat)\n")
	p.n++
	kill := time.AfterFunc(time.Duration(ms*8+1500)*time.Millisecond, func() { p.cmd.Process.Kill() })
	line, err := p.out.ReadString('\n')
	kill.Stop()
	if err != nil {
		p.cmd.Wait()
		*p = *startZ3()
		return "unknown"
	}
	line = strings.TrimSpace(line)
	if line != "sat" && line != "unsat" && line != "unknown" {
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "z3:", line)
			fmt.Fprintln(os.Stderr, q)
		}
		// drain the rest until an answer is seen
		for {
			l, err := p.out.ReadString('\n')
			if err != nil {
				return "unknown"
			}
			l = strings.TrimSpace(l)
			if l == "sat" || l == "unsat" || l == "unknown" {
				return "unknown"
			}
		}
	}
	return line
}

// ---------------------------------------------------------------- portfolio for final obligations

type solverRes struct {
	verdict string
	solver  string
	model   string
	dur     time.Duration
	detail  string
}

type solverCfg struct {
	name string
	args func(ms int) []string
	pre  string
}

var solvers = []solverCfg{
	{"z3-new", func(ms int) []string { return []string{"z3-new", "-smt2", "-in", fmt.Sprintf("-t:%d", ms)} }, "(set-option :smt.mbqi false)\n"},
	{"cvc5", func(ms int) []string { return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms)} }, "(set-logic ALL)\n"},
	{"z3", func(ms int) []string { return []string{"z3", "-smt2", "-in", fmt.Sprintf("-t:%d", ms)} }, ""},
	{"z3-new-mbqi", func(ms int) []string { return []string{"z3-new", "-smt2", "-in", fmt.Sprintf("-t:%d", ms)} }, ""},
}

func runSolver(ctx context.Context, sc solverCfg, q string, ms int, model bool) solverRes {
	t0 := time.Now()
	a := sc.args(ms)
	ctx2, cancel := context.WithTimeout(ctx, time.Duration(ms+2000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx2, a[0], a[1:]...)
	txt := ""
	if model {
		txt = "(set-option :produce-models true)\n"
	}
	txt += sc.pre + q + "(check-sat)\n"
	if model {
		txt += "(get-model)\n"
	}
	cmd.Stdin = strings.NewReader(txt)
	out, _ := cmd.CombinedOutput()
	d := time.Since(t0)
	atomic.AddInt64(&solverTime, int64(d))
	atomic.AddInt64(&solverCalls, 1)
	s := strings.TrimSpace(string(out))
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	r := solverRes{solver: sc.name, dur: d, detail: first}
	switch first {
	case "sat", "unsat", "unknown":
		r.verdict = first
	default:
		r.verdict = "unknown"
	}
	if model && (r.verdict == "sat" || r.verdict == "unknown") {
		r.model = s
	}
	return r
}

// discharge decides one obligation: first a quick z3-new run, then the whole portfolio in parallel.
func discharge(q, qf string, quickMS, fullMS int) solverRes {
	r := runSolver(context.Background(), solvers[0], q, quickMS, false)
	if r.verdict == "unsat" {
		return r
	}
	if qf != "" { // often the quantified facts are only in the way
		if r := runSolver(context.Background(), solvers[0], qf, quickMS, false); r.verdict == "unsat" {
			return r
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan solverRes, len(solvers))
	var wg sync.WaitGroup
	for _, sc := range solvers {
		wg.Add(1)
		go func(sc solverCfg) {
			defer wg.Done()
			ch <- runSolver(ctx, sc, q, fullMS, false)
		}(sc)
	}
	var details []string
	best := solverRes{verdict: "unknown", solver: "none"}
	for range solvers {
		x := <-ch
		details = append(details, fmt.Sprintf("%s: %s (%.1fs)", x.solver, x.detail, x.dur.Seconds()))
		if x.verdict == "unsat" {
			cancel()
			return x
		}
		if x.verdict == "sat" {
			cancel()
			best = x
			break
		}
	}
	best.detail = strings.Join(details, "; ")
	m := runSolver(context.Background(), solvers[3], q, quickMS, true)
	best.model = m.model
	return best
}

// ground are the facts without quantifiers.
func ground(facts []*Term, seen map[*Term]bool) (out []*Term) {
	var quant func(t *Term) bool
	quant = func(t *Term) bool {
		if r, ok := seen[t]; ok {
			return r
		}
		r := t.op == "forall" || t.op == "exists"
		for _, a := range t.args {
			r = quant(a) || r
		}
		seen[t] = r
		return r
	}
	for _, f := range facts {
		if !quant(f) {
			out = append(out, f)
		}
	}
	return
}
