package main

// Merging of pure functions: a call of a side-effect free function of the
// repository on symbolic scalars is executed along every one of its branches and
// the results are joined into one value (an if-then-else term, or a string with
// guarded alternatives) instead of forking the caller's path.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type alt struct {
	c *Term
	s string
}

type subState struct {
	prefix []bool
	taken  []bool
	conds  []*Term
	known  map[*Term]bool
	steps  int
}

type abortMerge struct{ why string }

const maxAlts = 48

// fs fixes a string with alternatives to one of them, forking.
func (w *Worker) fs(s Str) Str {
	if s.alts == nil {
		return s
	}
	for i, a := range s.alts {
		if i == len(s.alts)-1 || w.branch(a.c) {
			return Str{s: a.s}
		}
	}
	return s
}

func (w *Worker) forceArg(v value) value {
	if s, ok := v.(Str); ok && s.alts != nil {
		return w.fs(s)
	}
	return v
}

func (w *Worker) mkAlts(in []alt) Str {
	var out []alt
	for _, a := range in {
		c := w.simp(a.c)
		if c.isConst() {
			if c.val == 1 {
				return Str{s: a.s}
			}
			continue
		}
		dup := false
		for i := range out {
			if out[i].s == a.s {
				out[i].c = w.f.BOr(out[i].c, c)
				dup = true
			}
		}
		if !dup {
			out = append(out, alt{c, a.s})
		}
	}
	if len(out) == 1 {
		return Str{s: out[0].s}
	}
	return Str{opaque: true, alts: out}
}

func basicKind(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsInteger|types.IsBoolean|types.IsString) != 0
}

var mergeLibs = map[string]bool{"log": true, "fmt": true, "errors": true, "strings": true}

// pureFn: no effect visible to the caller, decided on the SSA.
func (p *Program) pureFn(fn *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[fn] {
		return false // recursion
	}
	seen[fn] = true
	defer delete(seen, fn)
	if len(fn.Blocks) == 0 || fn.Recover != nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch i := in.(type) {
			case *ssa.Store:
				if !localAddr(i.Addr) {
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer, *ssa.Select, *ssa.Panic, *ssa.MakeChan, *ssa.RunDefers:
				return false
			case *ssa.UnOp:
				if i.Op.String() == "<-" {
					return false
				}
			case *ssa.Call:
				if i.Call.IsInvoke() {
					return false
				}
				switch c := i.Call.Value.(type) {
				case *ssa.Builtin:
					if c.Name() != "len" && c.Name() != "cap" && c.Name() != "append" {
						return false
					}
				case *ssa.Function:
					if c.Pkg != nil && mergeLibs[c.Pkg.Pkg.Path()] {
						switch c.Name() {
						case "Fatal", "Fatalf", "Fatalln", "Panic", "Panicf", "Panicln":
							return false
						}
						continue
					}
					if c.Pkg == nil || !inRepoPkg(c.Pkg.Pkg.Path()) || !p.pureFn(c, seen) {
						return false
					}
				default:
					return false
				}
			}
		}
	}
	return true
}

func localAddr(v ssa.Value) bool {
	switch a := v.(type) {
	case *ssa.Alloc:
		return true
	case *ssa.FieldAddr:
		return localAddr(a.X)
	case *ssa.IndexAddr:
		return localAddr(a.X)
	}
	return false
}

func (p *Program) mergeable(fn *ssa.Function) bool {
	if fn.Pkg == nil || !inRepoPkg(fn.Pkg.Pkg.Path()) || fn.Parent() != nil {
		return false
	}
	sig := fn.Signature
	if sig.Results().Len() != 1 || !basicKind(sig.Results().At(0).Type()) || sig.Recv() != nil {
		return false
	}
	for i := 0; i < sig.Params().Len(); i++ {
		if !basicKind(sig.Params().At(i).Type()) {
			return false
		}
	}
	return p.pureFn(fn, map[*ssa.Function]bool{})
}

func symbolicArg(args []value) bool {
	for _, a := range args {
		if t, ok := a.(*Term); ok && !t.isConst() {
			return true
		}
	}
	return false
}

func (w *Worker) subBranch(c *Term) bool {
	s := w.sub
	if v, ok := s.known[c]; ok {
		return v
	}
	n := len(s.taken)
	b := true
	if n < len(s.prefix) {
		b = s.prefix[n]
	}
	s.taken = append(s.taken, b)
	lit := c
	if !b {
		lit = w.f.BNot(c)
	}
	s.conds = append(s.conds, lit)
	s.known[c] = b
	s.known[w.f.BNot(c)] = !b
	return b
}

// mergeCall returns false when the function has to be run as an ordinary call.
func (w *Worker) mergeCall(fn *ssa.Function, args []value) (res value, ok bool) {
	type out struct {
		c *Term
		v value
	}
	var outs []out
	saved := w.cur
	mark := len(w.undo)
	steps := w.steps
	defer func() {
		w.sub = nil
		w.cur = saved
		if r := recover(); r != nil {
			w.rollback(mark)
			w.steps = steps
			switch r.(type) {
			case abortMerge, goPanic, exitPath, stopPath:
				res, ok = nil, false
			default:
				panic(r)
			}
		}
	}()
	queue := [][]bool{nil}
	for len(queue) > 0 {
		if len(outs) >= maxAlts {
			panic(abortMerge{"too many alternatives"})
		}
		pre := queue[len(queue)-1]
		queue = queue[:len(queue)-1]
		w.sub = &subState{prefix: pre, known: map[*Term]bool{}}
		w.cur = saved
		v := w.callFn(fn, args, nil, 0)
		s := w.sub
		w.rollback(mark)
		for i := len(s.taken) - 1; i >= len(pre); i-- {
			if s.taken[i] {
				alt := append(append([]bool{}, s.taken[:i]...), false)
				queue = append(queue, alt)
			}
		}
		outs = append(outs, out{w.conj(s.conds), v})
	}
	w.sub = nil
	if len(outs) == 1 {
		return outs[0].v, true
	}
	switch outs[0].v.(type) {
	case *Term:
		r := outs[len(outs)-1].v.(*Term)
		for i := len(outs) - 2; i >= 0; i-- {
			r = w.f.Ite(outs[i].c, outs[i].v.(*Term), r)
		}
		return r, true
	case Str:
		var as []alt
		for _, o := range outs {
			s := o.v.(Str)
			if s.opaque || s.b != nil {
				return nil, false
			}
			as = append(as, alt{o.c, s.s})
		}
		return w.mkAlts(as), true
	}
	return nil, false
}

// conj: t==c makes t!=d redundant for every other constant d.
func (w *Worker) conj(cs []*Term) *Term {
	eq := map[*Term]bool{}
	for _, c := range cs {
		if t, _, ok := eqConst(c); ok {
			eq[t] = true
		}
	}
	r := w.f.True
	for _, c := range cs {
		if c.op == OBNot {
			if t, _, ok := eqConst(c.a[0]); ok && eq[t] {
				continue
			}
		}
		r = w.f.BAnd(r, c)
	}
	return r
}

func eqConst(c *Term) (*Term, uint64, bool) {
	if c.op != OEq {
		return nil, 0, false
	}
	if c.a[0].isConst() {
		return c.a[1], c.a[0].val, true
	}
	if c.a[1].isConst() {
		return c.a[0], c.a[1].val, true
	}
	return nil, 0, false
}
