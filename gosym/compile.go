package main

import (
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

const (
	kNone = iota
	kReg
	kConst
	kGlobal
	kFunc
	kBuiltin
)

type oper struct {
	kind uint8
	idx  int32
	v    ssa.Value
}

type cinstr struct {
	i   ssa.Instruction
	dst int32
	o   []oper
}

type cblock struct {
	b     *ssa.BasicBlock
	ins   []cinstr
	nphi  int
	succs []int
}

type cfunc struct {
	fn       *ssa.Function
	blocks   []cblock
	nregs    int
	hasDefer bool
	intr     intrinsic
	redirect *ssa.Function
	name     string
	inRepo   bool
	harness  bool
	ui       bool // of gocui
	pure     bool // of a package of the standard library that only works on its arguments
	merge    bool
	fmtLike  bool
	recover  int
	once     sync.Once
}

// Program: shared, immutable after load except for the compile caches.
type Program struct {
	prog      *ssa.Program
	mu        sync.Mutex
	funcs     sync.Map // *ssa.Function -> *cfunc
	consts    []*ssa.Const
	constIx   map[*ssa.Const]int32
	globals   []*ssa.Global
	globIx    map[*ssa.Global]int32
	methods   sync.Map // methodKey -> *ssa.Function
	byName    map[string]*ssa.Package
	stubs     map[string]*ssa.Function
	initOrder []*ssa.Package
	overlaid  map[string]bool // harness files
}

type methodKey struct {
	t    types.Type
	pkg  *types.Package
	name string
}

func (p *Program) globalIndex(g *ssa.Global) int32 {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.globalIndexL(g)
}

func (p *Program) globalIndexL(g *ssa.Global) int32 {
	if i, ok := p.globIx[g]; ok {
		return i
	}
	i := int32(len(p.globals))
	p.globals = append(p.globals, g)
	p.globIx[g] = i
	return i
}

func (p *Program) fn(f *ssa.Function) *cfunc {
	if c, ok := p.funcs.Load(f); ok {
		cf := c.(*cfunc)
		cf.once.Do(func() { p.compile(cf) })
		return cf
	}
	c, _ := p.funcs.LoadOrStore(f, &cfunc{fn: f})
	cf := c.(*cfunc)
	cf.once.Do(func() { p.compile(cf) })
	return cf
}

func (p *Program) compile(cf *cfunc) {
	f := cf.fn
	cf.name = funcName(f)
	cf.inRepo = inRepo(f)
	cf.ui = strings.Contains(cf.name, "jroimartin/gocui.")
	for _, pk := range []string{"strings.", "strconv.", "bytes.", "sort.", "slices.", "maps.", "encoding/binary."} {
		n := strings.TrimLeft(cf.name, "(*")
		cf.pure = cf.pure || hasPrefix(n, pk)
	}
	if in, ok := intrinsics[cf.name]; ok {
		cf.intr = in
		cf.fmtLike = hasPrefix(cf.name, "fmt.") || hasPrefix(cf.name, "log.") || hasPrefix(cf.name, modPath+"/zzverif/sym.")
		return
	}
	if r := p.redirectFor(cf.name); r != nil && r != f {
		cf.redirect = r
		if hasPrefix(r.Name(), "gocui_") { // may be set aside, see sym.Real
			p.compileBody(cf)
		}
		return
	}
	cf.merge = cf.inRepo && !hasPrefix(f.Name(), "Verif_") && p.mergeable(f)
	p.compileBody(cf)
}

func inRepoPkg(path string) bool {
	return hasPrefix(path, modPath) && !hasPrefix(path, modPath+"/zzverif")
}

func (p *Program) compileBody(cf *cfunc) {
	f := cf.fn
	cf.name = funcName(f)
	cf.inRepo = inRepo(f)
	cf.harness = cf.inRepo && p.isHarness(f)
	if len(f.Blocks) == 0 {
		return
	}
	reg := map[ssa.Value]int32{}
	n := int32(0)
	add := func(v ssa.Value) {
		reg[v] = n
		n++
	}
	for _, x := range f.Params {
		add(x)
	}
	for _, x := range f.FreeVars {
		add(x)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				cf.hasDefer = true
			}
		}
	}
	if f.Recover != nil {
		cf.hasDefer = true
		cf.recover = f.Recover.Index
	} else {
		cf.recover = -1
	}
	cf.nregs = int(n)
	mk := func(v ssa.Value) oper {
		if v == nil {
			return oper{}
		}
		if r, ok := reg[v]; ok {
			return oper{kind: kReg, idx: r}
		}
		switch x := v.(type) {
		case *ssa.Const:
			p.mu.Lock()
			i, ok := p.constIx[x]
			if !ok {
				i = int32(len(p.consts))
				p.consts = append(p.consts, x)
				p.constIx[x] = i
			}
			p.mu.Unlock()
			return oper{kind: kConst, idx: i, v: x}
		case *ssa.Global:
			return oper{kind: kGlobal, idx: p.globalIndex(x), v: x}
		case *ssa.Function:
			return oper{kind: kFunc, v: x}
		case *ssa.Builtin:
			return oper{kind: kBuiltin, v: x}
		}
		return oper{}
	}
	cf.blocks = make([]cblock, len(f.Blocks))
	for bi, b := range f.Blocks {
		cb := &cf.blocks[bi]
		cb.b = b
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, in := range b.Instrs {
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			ci := cinstr{i: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				ci.dst = reg[v]
			}
			for _, o := range in.Operands(nil) {
				if o == nil {
					ci.o = append(ci.o, oper{})
					continue
				}
				ci.o = append(ci.o, mk(*o))
			}
			if _, ok := in.(*ssa.Phi); ok {
				cb.nphi++
			}
			cb.ins = append(cb.ins, ci)
		}
	}
}

const modPath = "github.com/charlesetsmith/saratoga"

func pkgOf(f *ssa.Function) *ssa.Package {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return f.Pkg
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return o.Pkg
	}
	return nil
}

func inRepo(f *ssa.Function) bool {
	p := pkgOf(f)
	if p == nil {
		return false
	}
	path := p.Pkg.Path()
	return len(path) >= len(modPath) && path[:len(modPath)] == modPath &&
		!hasPrefix(path, modPath+"/zzverif")
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// funcName: "pkg/path.Func", "(pkg/path.T).Method", "(*pkg/path.T).Method"; instances use the origin's name.
func funcName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		return o.RelString(nil)
	}
	return f.RelString(nil)
}

func (p *Program) method(t types.Type, m *types.Func) *ssa.Function {
	key := methodKey{t, m.Pkg(), m.Name()}
	if m.Exported() {
		key.pkg = nil
	}
	if f, ok := p.methods.Load(key); ok {
		return f.(*ssa.Function)
	}
	f := p.prog.LookupMethod(t, m.Pkg(), m.Name())
	p.methods.Store(key, f)
	return f
}

var rawCache sync.Map

// rawFn compiles fn without looking at intrinsics.
func (p *Program) rawFn(f *ssa.Function) *cfunc {
	if c, ok := rawCache.Load(f); ok {
		return c.(*cfunc)
	}
	cf := &cfunc{fn: f}
	p.compileBody(cf)
	rawCache.Store(f, cf)
	return cf
}
