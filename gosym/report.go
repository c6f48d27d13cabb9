package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"syscall"
	"time"
)

const evLevel = "model_checking"

func seed() int {
	n, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	return n
}

func writeEvidence(prop string, ev map[string]any) {
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// The harnesses and the tree do not type-check together: nothing was decided.
func writeLoadFailure(prop, tier string, err error, d time.Duration) int {
	writeEvidence(prop, map[string]any{"property": prop, "tier": tier, "seed": seed(), "level": evLevel,
		"coverage": map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{},
			"error": "the source could not be loaded: " + err.Error()},
		"wall_s": d.Seconds(), "violations": 0})
	return 2
}

// ---- native replay ---------------------------------------------------------------

type native struct {
	dir  string
	bin  string
	pkgs map[string]bool
	err  error
	done chan struct{}
}

func nativePkg(pkg string) bool { return pkg != "saratoga" }

// startNative builds one program holding the real packages and their harnesses.
func startNative(pkgs map[string][]string, p *Program) *native {
	n := &native{pkgs: map[string]bool{}, done: make(chan struct{})}
	go func() {
		defer close(n.done)
		n.err = n.build(pkgs, p)
	}()
	return n
}

func (n *native) build(pkgs map[string][]string, p *Program) error {
	dir, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		return err
	}
	n.dir = dir
	os.Chmod(dir, 0755)
	ov := baseOverlay()
	lay := func(dst, glob string) {
		fs, _ := filepath.Glob(glob)
		nat := map[string]bool{}
		for _, f := range fs {
			nat[f] = true
		}
		for _, f := range fs {
			if nat[strings.TrimSuffix(f, ".go")+"_native.go"] {
				continue
			}
			if nb := filepath.Base(f); nb == "eng.go" || strings.HasPrefix(nb, "eng_") {
				continue
			}
			at := filepath.Join(dst, "zz_verif_"+filepath.Base(f))
			if strings.Contains(f, "/harness/") && !strings.HasSuffix(f, "_native.go") && !p.overlaid[at] {
				continue
			}
			ov[at] = f
		}
	}
	lay(filepath.Join(repoDir, "zzverif/sym"), filepath.Join(verifDir, "zzverif/sym/*.go"))
	lay(filepath.Join(repoDir, "zzverif/term"), filepath.Join(verifDir, "zzverif/term/*.go"))
	lay(filepath.Join(repoDir, "zzverif/fds"), filepath.Join(verifDir, "zzverif/fds/*.go"))
	lay(filepath.Join(repoDir, "zzverif/vh"), filepath.Join(verifDir, "zzverif/vh/*.go"))
	var imps, cases strings.Builder
	i := 0
	var names []string
	for pk := range pkgs {
		names = append(names, pk)
	}
	sort.Strings(names)
	for _, pk := range names {
		hs := nativeHarnesses(pk, pkgs[pk])
		if !nativePkg(pk) || len(hs) == 0 {
			continue
		}
		n.pkgs[pk] = true
		lay(filepath.Join(repoDir, pk), filepath.Join(verifDir, "harness", pk, "*.go"))
		fmt.Fprintf(&imps, "\tp%d %q\n", i, modPath+"/"+pk)
		setup := p.byName[modPath+"/"+pk].Func("Verif_Setup") != nil
		for _, h := range hs {
			fmt.Fprintf(&cases, "\tcase %q:\n", h)
			if setup {
				fmt.Fprintf(&cases, "\t\tp%d.Verif_Setup()\n", i)
			}
			fmt.Fprintf(&cases, "\t\tp%d.%s()\n", i, h)
		}
		i++
	}
	if i == 0 {
		return fmt.Errorf("no natively replayable harness")
	}
	src := "package main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n" + imps.String() + ")\n\nfunc main() {\n\tswitch os.Args[1] {\n" + cases.String() +
		"\tdefault:\n\t\tfmt.Println(\"VERIF-REPLAY-ERROR no harness\")\n\t\tos.Exit(3)\n\t}\n\tfmt.Println(\"VERIF-OK\")\n\tos.Exit(0)\n}\n"
	mf := filepath.Join(dir, "main.go")
	if err := os.WriteFile(mf, []byte(src), 0644); err != nil {
		return err
	}
	ov[filepath.Join(repoDir, "zzverif/replay/main.go")] = mf
	// linux/amd64's syscall package lacks SO_REUSEPORT (15)
	fs, _ := filepath.Glob(filepath.Join(repoDir, "sarnet", "*.go"))
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err == nil && bytes.Contains(b, []byte("syscall.SO_REUSEPORT")) {
			g := filepath.Join(dir, "sarnet_"+filepath.Base(f))
			os.WriteFile(g, bytes.ReplaceAll(b, []byte("syscall.SO_REUSEPORT"), []byte("0xf")), 0644)
			ov[f] = g
		}
	}
	ob, _ := json.Marshal(map[string]any{"Replace": ov})
	of := filepath.Join(dir, "overlay.json")
	os.WriteFile(of, ob, 0644)
	bin := filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-tags=verif", "-overlay", of, "-o", bin, modPath+"/zzverif/replay")
	cmd.Dir = repoDir
	cmd.Env = goEnv()
	// the terminal: a fake in the place of termbox
	if b, err := os.ReadFile("/opt/vp/gomod/go.work"); err == nil {
		gw := filepath.Join(dir, "go.work")
		os.WriteFile(gw, append(b, "\nreplace github.com/nsf/termbox-go => "+filepath.Join(verifDir, "zzverif/termbox")+"\n"...), 0644)
		if b, err := os.ReadFile("/opt/vp/gomod/go.work.sum"); err == nil {
			os.WriteFile(gw+".sum", b, 0644)
		}
		cmd.Env = append(cmd.Env, "GOWORK="+gw)
	}
	out, err := cmd.CombinedOutput()
	if err != nil {
		if len(out) > 2000 {
			out = out[:2000]
		}
		return fmt.Errorf("native build: %v\n%s", err, out)
	}
	os.Chmod(bin, 0755)
	n.bin = bin
	return nil
}

var reHarness = regexp.MustCompile(`(?m)^func (Verif_\w+)\(\)`)

// harnesses of files named eng*.go exist for the engine only
func nativeHarnesses(pk string, hs []string) []string {
	in := map[string]bool{}
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", pk, "*.go"))
	for _, f := range fs {
		if nb := filepath.Base(f); nb == "eng.go" || strings.HasPrefix(nb, "eng_") {
			continue
		}
		b, _ := os.ReadFile(f)
		for _, m := range reHarness.FindAllStringSubmatch(string(b), -1) {
			in[m[1]] = true
		}
	}
	var r []string
	for _, h := range hs {
		if in[h] {
			r = append(r, h)
		}
	}
	return r
}

func (n *native) close() {
	if n != nil && n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

// run executes one harness on concrete inputs; verdict: "ok", "violated", "assume", "unsupported" (this
// machine cannot set the case up, see sym.Unsupported) or "error".
func (n *native) run(h, tier string, in map[string]uint64, timeout time.Duration) (verdict, text string) {
	w, err := os.MkdirTemp(n.dir, "run-")
	if err != nil {
		return "error", err.Error()
	}
	defer os.RemoveAll(w)
	cwd := filepath.Join(w, "d", "d", "d", "w")
	os.MkdirAll(cwd, 0755)
	filepath.Walk(w, func(p string, _ os.FileInfo, _ error) error { return os.Chown(p, 65534, 65534) })
	si := map[string]string{}
	for k, v := range in {
		si[k] = strconv.FormatUint(v, 10)
	}
	b, _ := json.Marshal(map[string]any{"Inputs": si, "Tier": tier})
	rf := filepath.Join(w, "replay.json")
	os.WriteFile(rf, b, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, n.bin, h)
	cmd.Dir = cwd
	cmd.Env = []string{"HOME=" + cwd, "PATH=/usr/bin:/bin", "VERIF_REPLAY=" + rf, "VERIF_REPO=" + repoDir, "GOMEMLIMIT=2GiB", "TZ=UTC"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: 65534, Gid: 65534}, Setpgid: true}
	var out bytes.Buffer
	lim := &limited{&out}
	cmd.Stdout, cmd.Stderr = lim, lim // one writer: exec copies both streams with one goroutine
	err = cmd.Start()
	if err != nil {
		return "error", err.Error()
	}
	err = cmd.Wait()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	s := out.String()
	if ctx.Err() != nil {
		return "violated", "did not finish in " + timeout.String() + "\n" + tail(s)
	}
	if err == nil {
		if strings.Contains(s, "VERIF-OK") {
			return "ok", ""
		}
		return "error", "no VERIF-OK line: " + tail(s)
	}
	code := cmd.ProcessState.ExitCode()
	switch {
	case strings.Contains(s, "VERIF-UNSUPPORTED"):
		return "unsupported", tail(s)
	case strings.Contains(s, "VERIF-ASSUME-FAIL"):
		return "assume", ""
	case strings.Contains(s, "VERIF-REPLAY-ERROR"):
		return "error", tail(s)
	case strings.Contains(s, "VERIF-ASSERT-FAIL"):
		return "violated", tail(s)
	case strings.Contains(s, "VERIF-ALLOW-EXIT") && code != 2:
		return "ok", ""
	case code == 2 || code == 1 || code == 0:
		return "violated", tail(s)
	}
	return "error", fmt.Sprintf("exit %d: %s", code, tail(s))
}

type limited struct{ b *bytes.Buffer }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

func tail(s string) string {
	if i := strings.Index(s, "goroutine "); i > 0 {
		s = s[:min(len(s), i+600)]
	}
	if len(s) > 1200 {
		s = s[len(s)-1200:]
	}
	return s
}

// ---- known findings --------------------------------------------------------------

type finding struct{ prop, harness, label, what string }

var reFind = regexp.MustCompile(`^open: property=(\S+) harness=(\S+) label="([^"]*)" (.*)$`)

func knownFindings(prop string) []finding {
	b, _ := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	var r []finding
	for _, l := range strings.Split(string(b), "\n") {
		if m := reFind.FindStringSubmatch(l); m != nil && m[1] == prop {
			r = append(r, finding{m[1], m[2], m[3], m[4]})
		}
	}
	return r
}

// ---- the report ------------------------------------------------------------------

type replayFile struct {
	Property, Harness, Package, Kind, Label, Detail, Tier string
	Inputs                                                map[string]string
	Confirmed                                             string
	SMT                                                   string `json:",omitempty"`
}

func report(prop, tier string, p *Program, ws []*Worker, rs []*HarnessResult, nat *native, noReplay bool, t0 time.Time, lt, it time.Duration) int {
	defer nat.close()
	if nat != nil {
		<-nat.done
		if nat.err != nil {
			fmt.Fprintln(os.Stderr, "note:", nat.err)
		}
	}
	kf := knownFindings(prop)
	hit := map[int]bool{}
	outDir := filepath.Join(verifDir, "work", "replay", prop)
	os.RemoveAll(outDir)
	nviol, unrep := 0, []map[string]any{}
	validated, mismatches := 0, []map[string]any{}
	var samples []any
	var violations []any
	states, transitions, inconcl := 0, 0, 0
	harn := []any{}
	funcs := map[string]int{}
	assume := map[string]bool{}
	var tot SolverStats
	unsat, trivial := 0, 0
	exhaustive := true
	for _, r := range rs {
		j := r.Job
		natOK := nat != nil && nat.err == nil && nat.pkgs[r.Pkg] && len(nativeHarnesses(r.Pkg, []string{r.Name})) == 1
		// group by label: one report per distinct violation
		seen := map[string]bool{}
		for _, v := range j.viol {
			key := v.Kind + "|" + v.Label
			if seen[key] {
				continue
			}
			confirmed, text := "", ""
			if noReplay {
				confirmed = "not replayed"
			} else if natOK && !v.Sched {
				for try := 0; try < 2 && confirmed == ""; try++ {
					verdict, t := nat.run(r.Name, tier, v.Inputs, 20*time.Second)
					text = t
					if verdict == "violated" {
						confirmed = "native run of the real code"
					} else if verdict == "error" || verdict == "unsupported" {
						if c, t := reexec(p, ws[0], j, v); c {
							confirmed = "concrete re-execution of the SSA of the real code (native: " + t + text + ")"
						}
						break
					} else {
						text = "native run: " + verdict
					}
				}
			} else if c, t := reexec(p, ws[0], j, v); c {
				confirmed = "concrete re-execution of the SSA of the real code"
				text = t
			} else {
				text = "re-execution: " + t
			}
			if confirmed == "" {
				unrep = append(unrep, map[string]any{"harness": r.Name, "kind": v.Kind, "label": v.Label, "detail": v.Detail, "inputs": strInputs(v.Inputs), "why": text})
				continue
			}
			seen[key] = true
			known := false
			for i, f := range kf {
				if f.harness == r.Name && f.label == v.Label {
					known = true
					if !hit[i] {
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.what)
					}
					hit[i] = true
				}
			}
			violations = append(violations, map[string]any{"harness": r.Name, "kind": v.Kind, "label": v.Label, "known": known, "confirmed": confirmed})
			if known {
				continue
			}
			nviol++
			os.MkdirAll(outDir, 0755)
			path := filepath.Join(outDir, fmt.Sprintf("%s-%d.json", r.Name, nviol))
			b, _ := json.MarshalIndent(replayFile{prop, r.Name, r.Pkg, v.Kind, v.Label, v.Detail + "\n" + text, tier, strInputs(v.Inputs), confirmed, v.SMT}, "", " ")
			os.WriteFile(path, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
			fmt.Printf("  %s: %s: %s\n  inputs: %s\n  confirmed by: %s\n", r.Name, v.Kind, v.Label, short(strInputs(v.Inputs)), confirmed)
		}
		// translator validation: the real build must agree on paths the engine passed
		val := 0
		if natOK && !noReplay {
			for _, s := range j.okSamples {
				verdict, t := nat.run(r.Name, tier, s, 20*time.Second)
				if verdict == "ok" {
					validated++
					val++
				} else if verdict != "unsupported" {
					mismatches = append(mismatches, map[string]any{"harness": r.Name, "inputs": strInputs(s), "native": verdict + " " + t})
				}
			}
		}
		states += j.paths
		transitions += j.transitions
		for k, v := range j.outcomes {
			switch k {
			case "ok", "assume", "failed", "panic", "exit", "deadlock", "hang":
			default:
				inconcl += v
			}
		}
		if !r.Complete || j.unknownBranches > 0 {
			exhaustive = false
		}
		for f, c := range j.encoded {
			if strings.Contains(f, modPath) && !strings.Contains(f, "/zzverif/") && !strings.Contains(f, ".Verif_") {
				funcs[strings.ReplaceAll(f, modPath+"/", "")] += c
			}
		}
		tot.Queries += j.stats.Queries
		tot.Sat += j.stats.Sat
		tot.Unsat += j.stats.Unsat
		tot.Unknown += j.stats.Unknown
		tot.Errors += j.stats.Errors
		tot.Time += j.stats.Time
		tot.Cross += j.stats.Cross
		tot.CrossDisagree += j.stats.CrossDisagree
		for _, c := range j.asserts {
			unsat += c
		}
		for _, c := range j.trivial {
			trivial += c
		}
		var missing []string
		for _, c := range coverLabels(r.Pkg, r.Name) {
			if j.covers[c] == 0 {
				missing = append(missing, c)
			}
		}
		for k := range j.traced {
			assume[k] = true
		}
		harn = append(harn, map[string]any{"harness": r.Name, "package": r.Pkg, "bounds": sortedKeys(j.notes), "paths": j.paths,
			"outcomes": j.outcomes, "inconclusive_reasons": j.reasons, "complete_within_bounds": r.Complete && j.unknownBranches == 0,
			"paths_left": len(j.queue), "assertions_decided_by_solver": j.asserts, "assertion_instances_true_by_simplification": j.trivial,
			"reached": j.covers, "not_reached": missing, "longest_path_decisions": j.maxDepth, "unknown_branch_queries": j.unknownBranches,
			"queries": j.stats.Queries, "solver_s": round(j.stats.Time.Seconds()), "wall_s": round(r.Seconds), "paths_validated_natively": val})
		for i, s := range j.okSamples {
			if i < 2 {
				samples = append(samples, map[string]any{"harness": r.Name, "inputs": strInputs(s)})
			}
		}
		if len(missing) > 0 {
			fmt.Fprintf(os.Stderr, "note: %s never reached %v\n", r.Name, missing)
		}
	}
	if inconcl > 0 {
		exhaustive = false
	}
	for _, m := range mismatches {
		fmt.Fprintf(os.Stderr, "note: native run disagrees with the engine: %v\n", short(m))
	}
	for _, u := range unrep {
		fmt.Fprintf(os.Stderr, "note: counterexample not reproduced: %v\n", short(u))
	}
	wall := time.Since(t0).Seconds()
	writeEvidence(prop, map[string]any{"property": prop, "tier": tier, "seed": seed(), "level": evLevel,
		"coverage": map[string]any{
			"states": states, "transitions": transitions, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":                     exhaustive,
			"explanation":                    "states: symbolic paths explored (each stands for every input that follows it); transitions: branch and value decisions, each decided by the solver; exhaustive: every path within the stated bounds was decided",
			"functions_encoded":              funcs,
			"harnesses":                      harn,
			"solver":                         solverName,
			"queries":                        tot.Queries,
			"queries_sat":                    tot.Sat,
			"queries_unsat":                  tot.Unsat,
			"queries_unknown":                tot.Unknown,
			"solver_errors":                  tot.Errors,
			"solver_s":                       round(tot.Time.Seconds()),
			"cross_checked_with_z3":          tot.Cross,
			"solver_disagreements":           tot.CrossDisagree,
			"assertions_decided_by_solver":   unsat,
			"assertions_by_simplification":   trivial,
			"inconclusive_paths":             inconcl,
			"counterexamples":                violations,
			"counterexamples_not_reproduced": unrep,
			"native_disagreements":           mismatches,
			"load_s":                         round(lt.Seconds()),
			"init_s":                         round(it.Seconds()),
		},
		"assumptions": sortedKeys(assume),
		"wall_s":      round(wall), "violations": nviol})
	fmt.Printf("%s %s: %d harnesses, %d paths, %d queries (%.1fs solver), %d+%d assertions, %d inconclusive, complete=%v, %d paths replayed natively, %d violations, %.1fs\n",
		prop, tier, len(rs), states, tot.Queries, tot.Time.Seconds(), unsat, trivial, inconcl, exhaustive, validated, nviol, wall)
	if nviol > 0 {
		return 1
	}
	return 0
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func short(x any) string {
	b, _ := json.Marshal(x)
	if len(b) > 700 {
		b = append(b[:700], "..."...)
	}
	return string(b)
}

func strInputs(in map[string]uint64) map[string]string {
	m := map[string]string{}
	for k, v := range in {
		m[k] = strconv.FormatUint(v, 10)
	}
	return m
}

var reCover = regexp.MustCompile(`sym\.Cover\("([^"]*)"\)`)

// labels of the reachability witnesses in the harness's own body
func coverLabels(pkg, h string) []string {
	fs, _ := filepath.Glob(filepath.Join(verifDir, "harness", pkg, "*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		i := bytes.Index(b, []byte("func "+h+"()"))
		if i < 0 {
			continue
		}
		body := b[i:]
		if e := bytes.Index(body, []byte("\n}")); e >= 0 {
			body = body[:e]
		}
		var r []string
		for _, m := range reCover.FindAllSubmatch(body, -1) {
			r = append(r, string(m[1]))
		}
		return r
	}
	return nil
}

// reexec runs the harness in the interpreter on the counterexample's values alone.
func reexec(p *Program, w *Worker, j *Job, v *Violation) (bool, string) {
	m := Model{}
	for k, x := range v.Model {
		m[k] = x
	}
	k := &Job{p: p, harness: j.harness, fn: j.fn, setup: j.setup, tier: j.tier, deadline: time.Now().Add(60 * time.Second), maxPaths: 1,
		maxSteps: j.maxSteps, allocBound: j.allocBound, timeoutMS: j.timeoutMS, fixed: m}
	k.run([]*Worker{w})
	for _, x := range k.viol {
		if x.Kind == v.Kind && x.Label == v.Label {
			return true, x.Detail
		}
	}
	return false, fmt.Sprint(k.outcomes, sortedKeys(k.reasons))
}
