package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type LoadCfg struct {
	Repo    string
	Verif   string
	Pkgs    []string // repo packages (relative), e.g. "data"
	Arch    string
	Verbose bool
	Needed  string // harness files that have this in them cannot be left out
}

// harnessFiles maps virtual /repo paths to the files of /verif that are laid over them.
func harnessFiles(verif, repo string, pkgs []string) map[string]string {
	m := map[string]string{}
	for _, d := range []string{"sym", "stub", "term", "fds", "vh"} {
		fs, _ := filepath.Glob(filepath.Join(verif, "zzverif", d, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_native.go") {
				continue
			}
			m[filepath.Join(repo, "zzverif", d, filepath.Base(f))] = f
		}
	}
	for _, p := range pkgs {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", p, "*.go"))
		for _, f := range fs {
			if strings.HasSuffix(f, "_native.go") {
				continue
			}
			m[filepath.Join(repo, p, "zz_verif_"+filepath.Base(f))] = f
		}
	}
	return m
}

func baseOverlay() map[string]string {
	var o struct{ Replace map[string]string }
	b, err := os.ReadFile("/opt/vp/gomod/overlay.json")
	if err == nil {
		json.Unmarshal(b, &o)
	}
	if o.Replace == nil {
		o.Replace = map[string]string{}
	}
	return o.Replace
}

func goEnv(extra ...string) []string {
	env := []string{}
	for _, e := range os.Environ() {
		k := e[:strings.IndexByte(e, '=')]
		switch k {
		case "GOFLAGS", "GOWORK", "GOOS", "GOARCH", "CGO_ENABLED", "GO111MODULE", "GOPROXY", "GOTOOLCHAIN":
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOTOOLCHAIN=local", "GOPROXY=off", "GO111MODULE=on", "GOWORK=/opt/vp/gomod/go.work", "GOFLAGS=", "CGO_ENABLED=0")
	if os.Getenv("HOME") == "" {
		env = append(env, "HOME=/root")
	}
	return append(env, extra...)
}

func Load(c LoadCfg) (*Program, []*ssa.Package, error) {
	ov := map[string][]byte{}
	overlaid := map[string]bool{}
	for k, v := range baseOverlay() {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ov[k] = b
	}
	for k, v := range harnessFiles(c.Verif, c.Repo, c.Pkgs) {
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, nil, err
		}
		ov[k] = b
		overlaid[k] = true
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:        c.Repo,
		Env:        goEnv("GOOS=linux", "GOARCH="+c.Arch),
		Overlay:    ov,
		BuildFlags: []string{"-tags=purego,verif"},
	}
	var pats []string
	for _, p := range c.Pkgs {
		pats = append(pats, modPath+"/"+p)
	}
	pats = append(pats, modPath+"/zzverif/stub", modPath+"/zzverif/sym")
	// A harness file of other properties that does not fit the code is left out.
	var pkgs []*packages.Package
	for {
		var err error
		if pkgs, err = packages.Load(cfg, pats...); err != nil {
			return nil, nil, err
		}
		var errs []string
		dropped := false
		packages.Visit(pkgs, nil, func(p *packages.Package) {
			for _, e := range p.Errors {
				errs = append(errs, fmt.Sprintf("%s: %v", p.PkgPath, e))
				f, _, _ := strings.Cut(e.Pos, ":")
				if b, ok := ov[f]; ok && overlaid[f] && strings.HasPrefix(filepath.Base(f), "zz_verif_") && c.Needed != "" && !strings.Contains(string(b), c.Needed) {
					fmt.Fprintf(os.Stderr, "note: left out: %v\n", e)
					delete(ov, f)
					delete(overlaid, f)
					dropped = true
				}
			}
		})
		if len(errs) == 0 {
			break
		}
		if !dropped {
			if len(errs) > 20 {
				errs = errs[:20]
			}
			return nil, nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
		}
	}
	prog, roots := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, constIx: map[*ssa.Const]int32{}, globIx: map[*ssa.Global]int32{}, byName: map[string]*ssa.Package{}, overlaid: overlaid}
	for _, x := range prog.AllPackages() {
		p.byName[x.Pkg.Path()] = x
	}
	p.stubs = map[string]*ssa.Function{}
	if sp := p.byName[modPath+"/zzverif/stub"]; sp != nil {
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && f.Parent() == nil {
				p.stubs[n] = f
			}
		}
	}
	p.initOrder = topo(prog)
	return p, roots, nil
}

func topo(prog *ssa.Program) []*ssa.Package {
	seen := map[*types.Package]bool{}
	var out []*ssa.Package
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		imps := append([]*types.Package{}, t.Imports()...)
		sort.Slice(imps, func(i, j int) bool { return imps[i].Path() < imps[j].Path() })
		for _, i := range imps {
			visit(i)
		}
		if p := prog.Package(t); p != nil {
			out = append(out, p)
		}
	}
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool { return all[i].Pkg.Path() < all[j].Pkg.Path() })
	for _, p := range all {
		visit(p.Pkg)
	}
	return out
}

// stub function name for a library function: last path element, type and name joined by "_".
func stubName(name string) string {
	r := strings.NewReplacer("(*", "", "(", "", ")", "")
	s := r.Replace(name)
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		s = s[i+1:]
	}
	return strings.NewReplacer(".", "_", "-", "_", "$", "_").Replace(s)
}

func (p *Program) redirectFor(name string) *ssa.Function {
	if strings.Contains(name, modPath) {
		return nil
	}
	f := p.stubs[stubName(name)]
	return f
}

var (
	rtErrOnce sync.Once
	rtErrT    types.Type
)

// runtimeErrType: the dynamic type given to run-time panics (runtime.Error values implement error).
func (p *Program) runtimeErrType() types.Type {
	rtErrOnce.Do(func() {
		if sp := p.byName[modPath+"/zzverif/stub"]; sp != nil {
			if t := sp.Type("RuntimeError"); t != nil {
				rtErrT = t.Type()
				return
			}
		}
		rtErrT = types.Typ[types.String]
	})
	return rtErrT
}

var skipInit = map[string]bool{"runtime": true, "internal/cpu": true, "internal/godebug": true, "testing": true,
	"internal/godebugs": true, "runtime/debug": true, "internal/poll": false, "syscall": false, "os/signal": true,
	"internal/runtime/maps": true, "runtime/cgo": true, "internal/syscall/unix": false}

// initWorker runs the package initialisers concretely; instructions the engine
// cannot execute poison what they would have produced.
func (p *Program) initWorker(w *Worker) []string {
	var notes []string
	w.initialising = true
	defer func() { w.initialising = false }()
	for _, pk := range p.initOrder {
		path := pk.Pkg.Path()
		if skipInit[path] || hasPrefix(path, "internal/runtime/") || hasPrefix(path, "runtime/") {
			continue
		}
		f := pk.Func("init")
		if f == nil {
			continue
		}
		w.maxSteps = 1 << 60
		if n := w.runInit(f); n != "" {
			notes = append(notes, path+": "+n)
		}
	}
	return notes
}

// runInit executes a package initialiser, skipping calls of other initialisers.
func (w *Worker) runInit(f *ssa.Function) (note string) {
	cf := w.p.fn(f)
	if len(cf.blocks) == 0 {
		return ""
	}
	fr := &frame{cf: cf, regs: make([]value, cf.nregs), prev: -1}
	for {
		cb := &cf.blocks[fr.block]
		next := -1
		for k := range cb.ins {
			ci := &cb.ins[k]
			switch in := ci.i.(type) {
			case *ssa.Jump:
				next = cb.succs[0]
			case *ssa.If:
				next = cb.succs[1]
				if t, ok := w.getSafe(fr, &ci.o[0]).(*Term); ok && t.isConst() && t.val == 1 {
					next = cb.succs[0]
				}
			case *ssa.Return:
				return
			case *ssa.Phi:
				for k, pb := range cb.b.Preds {
					if pb.Index == fr.prev {
						fr.regs[ci.dst] = w.getSafe(fr, &ci.o[k])
					}
				}
			default:
				if c, ok := in.(*ssa.Call); ok {
					if g, ok := c.Call.Value.(*ssa.Function); ok && g.Name() == "init" && g.Synthetic != "" {
						continue
					}
				}
				if n := w.execSafe(fr, ci, in); n != "" {
					if note == "" {
						note = n
					}
					if ci.dst >= 0 {
						fr.regs[ci.dst] = poison{n}
					}
					if st, ok := in.(*ssa.Store); ok {
						if p, ok := w.getSafe(fr, &ci.o[0]).(*value); ok && p != nil {
							*p = poison{n}
						}
						_ = st
					}
				}
			}
		}
		fr.prev = fr.block
		fr.block = next
		if next < 0 {
			return
		}
	}
}

func (w *Worker) getSafe(fr *frame, o *oper) (v value) {
	defer func() {
		if recover() != nil {
			v = poison{"operand"}
		}
	}()
	return w.get(fr, o)
}

func (w *Worker) execSafe(fr *frame, ci *cinstr, in ssa.Instruction) (note string) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case stopPath:
				note = x.kind + " " + x.msg
			case goPanic:
				note = "panic " + w.panicText(x) + x.where
			default:
				note = fmt.Sprint(r)
			}
			if len(note) > 200 {
				note = note[:200]
			}
		}
	}()
	w.cur = fr
	for i := range ci.o {
		if ci.o[i].kind == kReg {
			if p, ok := fr.regs[ci.o[i].idx].(poison); ok {
				return p.why
			}
		}
	}
	w.exec(fr, ci, in)
	return ""
}

func (p *Program) rebuildWorker(w *Worker) {
	st := w.s.Stats
	w.s.Close()
	w.f = NewFactory()
	w.s = NewSolver(w.f, w.s.timeout)
	w.s.Stats = st
	w.globals, w.consts, w.undo, w.uniq = nil, nil, nil, nil
	w.cur = nil
	m, pf := w.model, w.prefix
	w.resetPath()
	p.initWorker(w)
	if w.j != nil && w.j.setup != nil {
		w.runSetup(w.j.setup)
	}
	w.resetPath()
	w.model, w.prefix = m, pf
	w.undo = nil
	w.maxSteps = w.j.maxSteps
}

// runSetup runs the harness's concrete set-up once; its effects are the base state of every path.
func (w *Worker) runSetup(fn value) (err error) {
	w.initialising = true
	defer func() {
		w.initialising = false
		if r := recover(); r != nil {
			switch x := r.(type) {
			case goPanic:
				err = fmt.Errorf("set-up panicked: %s%s", w.panicText(x), x.where)
			case exitPath:
				err = fmt.Errorf("set-up ended the process: %s", x.msg)
			default:
				err = fmt.Errorf("set-up: %v%s", r, w.whereStr())
			}
		}
		w.undo = nil
	}()
	w.maxSteps = 1 << 60
	w.call(fn, nil, 0)
	return nil
}
