package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func usage() {
	fmt.Fprintln(os.Stderr, "usage: govc check -prop ID | unit [-prop ID] KEY... | ssa KEY | funcs | lint")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	if d := os.Getenv("GOVC_VERIF"); d != "" {
		verifDir = d
	}
	if d := os.Getenv("GOVC_REPO"); d != "" {
		repoDir = d
	}
	fs := flag.NewFlagSet("govc", flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "tier")
	quick := fs.Int("quick", 3000, "first solver timeout (ms)")
	full := fs.Int("full", 20000, "portfolio timeout (ms)")
	verbose := fs.Bool("v", false, "verbose")
	nomodel := fs.Bool("q", false, "do not print details")
	fs.Parse(os.Args[2:])
	if *tier == "" {
		*tier = "quick"
	}
	db := newSpecDB()
	if err := db.loadDir(filepath.Join(verifDir, "contracts")); err != nil {
		fmt.Fprintln(os.Stderr, "contracts:", err)
		os.Exit(3)
	}
	switch os.Args[1] {
	case "check":
		os.Exit(runCheck(db, *prop, *tier))
	case "unit":
		w, err := loadWorld(repoDir, db)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		pool := newPool(6)
		defer pool.close()
		bad := 0
		for _, k := range fs.Args() {
			var r *UnitResult
			if strings.HasPrefix(k, "lemma.") {
				for _, lm := range db.lemmas {
					if lm.name == k[6:] {
						r = verifyLemma(w, pool, lm, *prop)
					}
				}
			} else {
				if db.contracts[k] == nil {
					fmt.Println("no contract", k)
					continue
				}
				r = verifyUnit(w, pool, k, *prop)
			}
			profPrint()
			gen := time.Since(time.Now().Add(-r.dur))
			dischargeAll(r.obls, *quick, *full)
			bad += printUnit(r, gen, *verbose, *nomodel)
		}
		if *verbose {
			for _, s := range w.sortedTrusted() {
				fmt.Println("  assumes:", s)
			}
		}
		if bad > 0 {
			os.Exit(1)
		}
	case "replay": // run the executable oracles only (development)
		for _, p := range os.Args[2:] {
			hit, out := runReplay(p, 1, "quick")
			fmt.Printf("%s failing input: %v\n%s\n", p, hit, out)
		}
	case "ssa":
		w, err := loadWorld(repoDir, db)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for _, k := range fs.Args() {
			if f := w.funcs[k]; f != nil {
				f.WriteTo(os.Stdout)
			} else {
				fmt.Println("no function", k)
			}
		}
	case "funcs":
		w, err := loadWorld(repoDir, db)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		var ks []string
		for k, f := range w.funcs {
			ks = append(ks, fmt.Sprintf("%-50s %s", k, w.pos(f.Pos())))
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
	case "lint":
		w, err := loadWorld(repoDir, db)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		for k := range db.contracts {
			if w.funcs[k] == nil {
				fmt.Println("contract without function:", k)
			}
		}
	default:
		usage()
	}
}

func printUnit(r *UnitResult, gen time.Duration, verbose, quiet bool) int {
	if r.missing {
		fmt.Printf("%-40s MISSING %s\n", r.unit, r.note)
		return 1
	}
	ok, bad := 0, 0
	for _, o := range r.obls {
		if o.verdict == "proved" {
			ok++
		} else {
			bad++
		}
	}
	fmt.Printf("%-40s obligations %d proved %d failed %d trivial %d exits %d gen %.1fs\n", r.unit, len(r.obls), ok, bad, r.trivial, r.exits, gen.Seconds())
	for _, o := range r.obls {
		if o.verdict != "proved" {
			fmt.Printf("   FAIL %s [%s] %s: %s\n", o.name, o.label, o.pos, o.verdict)
			if !quiet {
				fmt.Printf("      goal: %s\n", clip(o.goal.String(), 6000))
				fmt.Printf("      path: %s\n", clip(strings.Join(o.trail, " ; "), 1200))
				fmt.Printf("      detail: %s\n", o.detail)
			}
			if verbose {
				fmt.Println("      model:", clip(o.model, 4000))
			}
		} else if verbose {
			fmt.Printf("   ok   %s (%s %.2fs)\n", o.name, o.solver, o.dur.Seconds())
		}
	}
	return bad
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

// dischargeAll decides the obligations in parallel, identical queries once.
func dischargeAll(obls []*Obligation, quickMS, fullMS int) {
	feedQueries(obls)
	byQ := map[string][]*Obligation{}
	var qs []string
	for _, o := range obls {
		if o.verdict != "" {
			continue
		}
		q := o.query
		if q == "" {
			q = buildQuery(o.facts, o.goal)
			o.query = q
		}
		if byQ[q] == nil {
			qs = append(qs, q)
		}
		byQ[q] = append(byQ[q], o)
	}
	n := runtime.NumCPU()
	sem := make(chan bool, n)
	var wg sync.WaitGroup
	var failed int64
	for _, q := range qs {
		wg.Add(1)
		sem <- true
		go func(q string) {
			defer func() { <-sem; wg.Done() }()
			full := fullMS
			if atomic.LoadInt64(&failed) > 6 {
				full = min(full, 4000) // enough failures to report already
			}
			o := byQ[q][0]
			qf := ""
			if g := ground(o.facts, map[*Term]bool{}); len(g) < len(o.facts) {
				qf = buildQuery(g, o.goal)
			}
			quick := quickMS
			if o.quick > 0 {
				quick = min(quick, o.quick)
			}
			r := discharge(q, qf, quick, full)
			if r.verdict != "unsat" {
				atomic.AddInt64(&failed, 1)
			}
			for _, o := range byQ[q] {
				o.solver, o.dur, o.model, o.detail = r.solver, r.dur, r.model, r.detail
				switch r.verdict {
				case "unsat":
					o.verdict = "proved"
				case "sat":
					o.verdict = "refuted"
				default:
					o.verdict = "unknown"
				}
				if os.Getenv("GOVC_DUMP") != "" && o.verdict != "proved" {
					os.WriteFile(filepath.Join(os.Getenv("GOVC_DUMP"), sanitizeFile(o.name)+".smt2"), []byte(q+"(check-sat)\n"), 0o644)
				}
			}
		}(q)
	}
	wg.Wait()
}

func sanitizeFile(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' || r == '.' || r == '-' {
			return r
		}
		return '_'
	}, s)
}
