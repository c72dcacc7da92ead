package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
)

type finding struct {
	prop, obl, text string
}

// knownFindings reads lines "KNOWN-FINDING property=ID obligation=NAME text".
func knownFindings() (out []finding) {
	data, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "KNOWN-FINDING ") {
			continue
		}
		f := finding{}
		rest := strings.Fields(l)[1:]
		for len(rest) > 0 {
			if v, ok := strings.CutPrefix(rest[0], "property="); ok {
				f.prop = v
			} else if v, ok := strings.CutPrefix(rest[0], "obligation="); ok {
				f.obl = v
			} else {
				break
			}
			rest = rest[1:]
		}
		f.text = strings.Join(rest, " ")
		out = append(out, f)
	}
	return
}

type failure struct {
	name string
	obls []*Obligation
}

func runCheck(db *SpecDB, prop, tier string) int {
	t0 := time.Now()
	if prop == "" {
		usage()
	}
	quickMS, fullMS := 4000, 25000
	if tier == "thorough" {
		quickMS, fullMS = 10000, 90000
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	w, err := loadWorld(repoDir, db)
	if err != nil {
		fmt.Println("cannot load /repo:", err)
		return report(db, nil, prop, tier, seed, t0, []failure{{name: "load", obls: []*Obligation{{name: "load", kind: "load", verdict: "failed", detail: err.Error(), goal: TFalse}}}}, nil)
	}
	pool := newPool(6)
	defer pool.close()
	// work list: functions whose contract names the property, and every contract they rely on
	var work []string
	seen := map[string]bool{}
	for _, c := range db.order {
		if hasProp(c.props, prop) {
			k := c.pkg + "." + c.name
			work = append(work, k)
			seen[k] = true
		}
	}
	var results []*UnitResult
	var all []*Obligation
	done := make(chan bool)
	feed := make(chan []*Obligation, 1024)
	go func() {
		for o := range feed {
			dischargeAll(o, quickMS, fullMS)
		}
		done <- true
	}()
	var missing []string
	var trusted []string
	for len(work) > 0 {
		k := work[0]
		work = work[1:]
		c := db.contracts[k]
		if c.trusted {
			trusted = append(trusted, k)
			w.noteTrusted("contract of " + k + " (trusted, body not verified)")
			continue
		}
		r := verifyUnit(w, pool, k, prop)
		if r.missing {
			missing = append(missing, k)
			n := k[strings.LastIndexByte(k, '.')+1:]
			if unicode.IsUpper(rune(n[0])) && !strings.Contains(n, "$") {
				o := &Obligation{name: k + "/missing", unit: k, kind: "missing", goal: TFalse, verdict: "failed", detail: r.note}
				r.obls = append(r.obls, o)
			} else {
				fmt.Println("note:", r.note, "(unexported; callers are checked against whatever replaced it)")
				continue
			}
		}
		results = append(results, r)
		all = append(all, r.obls...)
		feedQueries(r.obls)
		feed <- r.obls
		for _, u := range r.used {
			if !seen[u] {
				seen[u] = true
				work = append(work, u)
			}
		}
	}
	for _, lm := range db.lemmas {
		if hasProp(lm.props, prop) {
			r := verifyLemma(w, pool, lm, prop)
			results = append(results, r)
			all = append(all, r.obls...)
			feedQueries(r.obls)
			feed <- r.obls
		}
	}
	close(feed)
	<-done
	// second chance for obligations that only timed out
	var again []*Obligation
	for _, o := range all {
		if o.verdict == "unknown" {
			again = append(again, o)
		}
	}
	if len(again) > 0 && len(again) <= 12 {
		for _, o := range again {
			o.verdict = ""
		}
		dischargeAll(again, quickMS, fullMS*2)
	}
	byName := map[string]*failure{}
	var names []string
	for _, o := range all {
		if o.verdict == "proved" {
			continue
		}
		f := byName[o.name]
		if f == nil {
			f = &failure{name: o.name}
			byName[o.name] = f
			names = append(names, o.name)
		}
		f.obls = append(f.obls, o)
	}
	sort.Strings(names)
	var fails []failure
	for _, n := range names {
		fails = append(fails, *byName[n])
	}
	if len(results) == 0 {
		fails = append(fails, failure{name: "nothing", obls: []*Obligation{{name: "nothing", kind: "missing", verdict: "failed", detail: "no function under contract for " + prop, goal: TFalse}}})
	}
	return report(db, w, prop, tier, seed, t0, fails, results)
}

// feedQueries renders the SMT text while no terms are being made: the term tables are not shared.
func feedQueries(obls []*Obligation) {
	var wg sync.WaitGroup
	var next int64
	for range runtime.NumCPU() {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(atomic.AddInt64(&next, 1)) - 1
				if i >= len(obls) {
					return
				}
				if o := obls[i]; o.verdict == "" && o.query == "" {
					o.query = buildQuery(o.facts, o.goal)
				}
			}
		}()
	}
	wg.Wait()
}

func report(db *SpecDB, w *World, prop, tier string, seed int, t0 time.Time, fails []failure, results []*UnitResult) int {
	known := knownFindings()
	var real []failure
	nKnown := 0
	for _, f := range fails {
		k := false
		for _, kf := range known {
			if kf.prop == prop && kf.obl == f.name {
				fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, f.name, kf.text)
				k = true
				nKnown += len(f.obls)
				break
			}
		}
		if !k {
			real = append(real, f)
		}
	}
	// evidence
	total, proved, trivial := 0, 0, 0
	backends := map[string]int{}
	kinds := map[string]int{}
	var fns []string
	var samples []any
	for _, r := range results {
		fns = append(fns, fmt.Sprintf("%s (%d obligations, %d paths to return)", r.unit, len(r.obls)+r.trivial, r.exits))
		trivial += r.trivial
		for _, o := range r.obls {
			total++
			kinds[o.kind]++
			if o.verdict == "proved" {
				proved++
				backends[o.solver]++
				if o.kind == "post" && len(samples) < 5 && (len(samples) == 0 || samples[len(samples)-1].(map[string]any)["obligation"] != o.name) {
					samples = append(samples, map[string]any{"obligation": o.name, "at": o.pos, "solver": o.solver, "seconds": o.dur.Seconds()})
				}
			}
		}
	}
	var assumptions []string
	if w != nil {
		assumptions = w.sortedTrusted()
	}
	assumptions = append(assumptions, baseAssumptions...)
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "proof",
		"coverage": map[string]any{
			"obligations":              total + trivial,
			"discharged":               proved + trivial,
			"discharged_by_solver":     backends,
			"discharged_by_simplifier": trivial,
			"known_findings":           nKnown,
			"obligations_by_kind":      kinds,
			"functions_under_contract": fns,
			"solver_seconds":           float64(atomic.LoadInt64(&solverTime)) / 1e9,
			"solver_calls":             atomic.LoadInt64(&solverCalls),
			"checker_cmd":              "bin/govc check -prop " + prop + " (z3 5.3.2, cvc5 1.1.2, z3 4.8.12 on every obligation generated from /repo's go/ssa)",
			"trusted_base":             append([]string{"govc verification condition generator (/verif/tool)", "golang.org/x/tools/go/ssa", "z3-new, cvc5, z3"}, assumptions...),
			"samples":                  samples,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(real),
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0o755)
	code := 0
	if len(real) > 0 {
		code = 1
		path := filepath.Join(verifDir, "evidence", "replay", prop+".txt")
		os.MkdirAll(filepath.Dir(path), 0o755)
		var sb strings.Builder
		fmt.Fprintf(&sb, "property %s: obligations not discharged on the current source of %s\n\n", prop, repoDir)
		for i, f := range real {
			o := f.obls[0]
			fmt.Printf("failed obligation %s (%d instance(s)) at %s: %s\n", f.name, len(f.obls), o.pos, o.verdict)
			if i < 12 {
				fmt.Fprintf(&sb, "obligation %s\n  source: %s\n  clause: %s\n  verdict: %s\n  solvers: %s\n  path: %s\n", f.name, o.pos, o.label, o.verdict, o.detail, strings.Join(o.trail, " ; "))
				if o.goal != nil {
					fmt.Fprintf(&sb, "  goal: %s\n", clip(o.goal.String(), 3000))
				}
				if o.model != "" {
					fmt.Fprintf(&sb, "  solver output:\n%s\n", clip(o.model, 6000))
				}
				fmt.Fprintln(&sb)
			}
		}
		found, out := runReplay(prop, seed, tier)
		sb.WriteString("\n==== replay against the real code ====\n" + out)
		os.WriteFile(path, []byte(sb.String()), 0o644)
		if found {
			for _, l := range strings.Split(out, "\n") {
				if strings.Contains(l, "FAILING-INPUT") {
					fmt.Println(strings.TrimSpace(l))
					break
				}
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", prop, path)
		}
		ev["failed_obligations"] = func() (n []string) {
			for _, f := range real {
				n = append(n, f.name)
			}
			return
		}()
	} else {
		fmt.Printf("property %s: %d obligations (%d by the simplifier, %d by solvers), %d functions and lemmas, %.1fs\n", prop, total+trivial, trivial, proved, len(results), time.Since(t0).Seconds())
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", prop+".json"), data, 0o644); err != nil {
		fmt.Println(err)
	}
	return code
}

var baseAssumptions = []string{
	"memory safety of the Go runtime; no unsafe code in the verified functions beyond the listed cgo calls",
	"slice lengths, capacities and offsets stay below 2^47",
	"termination is not proved (partial correctness)",
	"goroutine interleavings inside one function are not modelled; guarded fields are checked for lock discipline",
}

// runReplay searches for a concrete failing input with the property's executable oracle,
// compiled against the real package through an overlay.
func runReplay(prop string, seed int, tier string) (bool, string) {
	files, _ := filepath.Glob(filepath.Join(verifDir, "replay", prop, "*.go"))
	if len(files) == 0 {
		return false, "no executable oracle for this property\n"
	}
	dir, err := os.MkdirTemp("", "govc-replay")
	if err != nil {
		return false, err.Error()
	}
	defer os.RemoveAll(dir)
	repl := map[string]string{}
	pkgs := map[string]bool{}
	goBin := "/opt/veriftools/go1.24.13/bin/go"
	for _, f := range files {
		data, _ := os.ReadFile(f)
		line := string(data)
		if strings.Contains(line, "testing/synctest") { // needs a newer standard library
			goBin = "/opt/veriftools/go1.27.3/bin/go"
		}
		if i := strings.IndexByte(line, '\n'); i >= 0 {
			line = line[:i]
		}
		pkg := strings.TrimSpace(strings.TrimPrefix(line, "// overlay:"))
		repl[filepath.Join(repoDir, pkg, "zz_verif_"+strings.TrimSuffix(filepath.Base(f), ".go")+"_test.go")] = f
		pkgs["./"+pkg] = true
	}
	ov, _ := json.Marshal(map[string]any{"Replace": repl})
	ovf := filepath.Join(dir, "overlay.json")
	os.WriteFile(ovf, ov, 0o644)
	args := []string{"test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", "150s", "-run", "^TestVerif" + prop, "-v"}
	for p := range pkgs {
		args = append(args, p)
	}
	ctx, cancel := context.WithTimeout(context.Background(), 240*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, goBin, args...)
	cmd.Dir = repoDir
	cmd.Env = append(goEnv(), "VERIF_SEED="+strconv.Itoa(seed), "TMPDIR="+dir)
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err = cmd.Run()
	out := "go " + strings.Join(args, " ") + "\n" + clip(buf.String(), 20000)
	hit := err != nil && (strings.Contains(out, "FAILING-INPUT") || strings.Contains(out, "panic:") && strings.Contains(out, "goroutine") && strings.Contains(out, "TestVerif"))
	return hit, out
}
