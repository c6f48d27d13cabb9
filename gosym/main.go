package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

var (
	verifDir = "/verif"
	verbose  = flag.Bool("v", false, "print every path")
	workers  = flag.Int("j", 8, "workers")
)

// harness functions of a property: Verif_<id>_<name> in /verif/harness/<pkg>/*.go
func findHarnesses(prop string) (map[string][]string, error) {
	re := regexp.MustCompile(`(?m)^func (Verif_` + prop + `_\w+)\(\)`)
	res := map[string][]string{}
	files, _ := filepath.Glob(filepath.Join(verifDir, "harness", "*", "*.go"))
	for _, f := range files {
		if strings.HasSuffix(f, "_native.go") {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		pkg := filepath.Base(filepath.Dir(f))
		for _, m := range re.FindAllStringSubmatch(string(b), -1) {
			res[pkg] = append(res[pkg], m[1])
		}
	}
	for _, v := range res {
		sort.Strings(v)
	}
	return res, nil
}

type HarnessResult struct {
	Name     string
	Pkg      string
	Job      *Job
	Seconds  float64
	Complete bool
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	only := flag.String("only", "", "only harnesses whose name contains this")
	budget := flag.Int("budget", 0, "seconds for the whole check (0: per tier)")
	flag.StringVar(&solverName, "solver", "cvc5", "cvc5 or z3")
	flag.StringVar(&repoDir, "repo", "/repo", "repository")
	flag.StringVar(&verifDir, "verif", "/verif", "verification directory")
	noReplay := flag.Bool("noreplay", false, "report raw counterexamples without replaying them")
	initNotes := flag.Bool("initnotes", false, "print initialiser problems")
	flag.Parse()
	os.Exit(runProp(*prop, *tier, *only, *budget, *noReplay, *initNotes))
}

func runProp(prop, tier, only string, budget int, noReplay, initNotes bool) int {
	t0 := time.Now()
	hs, err := findHarnesses(prop)
	if err != nil || len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop, err)
		return 2
	}
	if budget == 0 {
		budget = 600
		if tier == "thorough" {
			budget = 3000
		}
	}
	var pkgs []string
	for p := range hs {
		pkgs = append(pkgs, p)
	}
	sort.Strings(pkgs)
	p, _, err := Load(LoadCfg{Repo: repoDir, Verif: verifDir, Pkgs: pkgs, Arch: "riscv64", Needed: "func Verif_" + prop + "_"})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return writeLoadFailure(prop, tier, err, time.Since(t0))
	}
	loadTime := time.Since(t0)
	var nat *native
	if !noReplay {
		nat = startNative(hs, p)
	}
	ws := make([]*Worker, *workers)
	var wg sync.WaitGroup
	var notes []string
	for i := range ws {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ws[i] = newWorker(i, p, 20000)
			n := p.initWorker(ws[i])
			if i == 0 {
				notes = n
			}
		}(i)
	}
	wg.Wait()
	if initNotes {
		for _, n := range notes {
			fmt.Fprintln(os.Stderr, "init:", n)
		}
	}
	initTime := time.Since(t0) - loadTime
	var results []*HarnessResult
	total := 0
	for _, pk := range pkgs {
		for _, h := range hs[pk] {
			if only == "" || strings.Contains(h, only) {
				total++
			}
		}
	}
	deadline := t0.Add(time.Duration(budget) * time.Second)
	doneN := 0
	for _, pk := range pkgs {
		sp := p.byName[modPath+"/"+pk]
		var setup *ssa.Function
		if setup = sp.Func("Verif_Setup"); setup != nil {
			for _, w := range ws {
				wg.Add(1)
				go func(w *Worker) {
					defer wg.Done()
					w.resetPath()
					if e := w.runSetup(setup); e != nil {
						fmt.Fprintln(os.Stderr, "setup:", e)
						w.setupErr = e
					}
					w.resetPath()
				}(w)
			}
			wg.Wait()
		}
		for _, h := range hs[pk] {
			if only != "" && !strings.Contains(h, only) {
				continue
			}
			// share the remaining time among the remaining harnesses (twice an equal share)
			left := time.Until(deadline)
			share := left
			if rem := total - doneN; rem > 1 {
				share = left * 2 / time.Duration(rem)
				if share > left {
					share = left
				}
			}
			doneN++
			j := &Job{p: p, harness: h, fn: sp.Func(h), tier: tier, deadline: time.Now().Add(share), maxPaths: 2_000_000,
				maxSteps: 12_000_000, allocBound: 4096, timeoutMS: 20000, cross: tier == "thorough", verbose: *verbose}
			if setup != nil {
				j.setup = setup
			}
			s0 := time.Now()
			for _, w := range ws {
				if setup != nil && w.setupErr != nil && ws[0].setupErr == nil {
					ws[0].setupErr = w.setupErr
				}
			}
			if setup != nil && ws[0].setupErr != nil {
				j.init()
				j.outcomes["setup"] = 1
				j.reasons["setup: "+ws[0].setupErr.Error()]++
			} else {
				j.run(ws)
			}
			r := &HarnessResult{Name: h, Pkg: pk, Job: j, Seconds: time.Since(s0).Seconds(), Complete: len(j.queue) == 0}
			results = append(results, r)
			fmt.Fprintf(os.Stderr, "%s: paths=%d outcomes=%v queries=%d solver=%.1fs time=%.1fs complete=%v depth=%d violations=%d unknown=%d\n",
				h, j.paths, j.outcomes, j.stats.Queries, j.stats.Time.Seconds(), r.Seconds, r.Complete, j.maxDepth, len(j.viol), j.unknownBranches)
			for _, k := range sortedKeys(j.reasons) {
				fmt.Fprintf(os.Stderr, "   %dx %s\n", j.reasons[k], k)
			}
		}
	}
	rc := report(prop, tier, p, ws, results, nat, noReplay, t0, loadTime, initTime)
	for _, w := range ws {
		w.s.Close()
	}
	return rc
}
