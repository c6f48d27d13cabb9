package main

// Happens-before data-race detection (vector clocks), switched on by
// sym.Races(true). Recorded are the accesses made by functions of the
// repository itself, and of gocui where it is not a stand-in (not the harness,
// the stand-ins or the standard library);
// synchronisation is recorded wherever it happens. Two accesses to the same
// memory (a scalar, a slice element, or a map as a whole), at least one of them
// a write, that no chain of synchronisation orders are a race, whether or not
// the schedule of this path lets them collide.

import (
	"fmt"
	"go/types"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type vclock []uint32

func (v vclock) at(i int) uint32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

func join(a, b vclock) vclock {
	r := make(vclock, max(len(a), len(b)))
	for i := range r {
		r[i] = max(a.at(i), b.at(i))
	}
	return r
}

type raceAcc struct {
	g  int
	c  uint32
	at string
}

type raceCell struct {
	w  raceAcc
	rd []raceAcc
}

type raceState struct {
	vc    map[*gor]vclock
	ids   map[*gor]int
	sync  map[any]vclock
	cells map[any]*raceCell
	seen  map[string]bool
	count int
}

// me: the thread that runs, which is a goroutine or detached from one.
func (w *Worker) me() *gor {
	if w.g.as != nil {
		return w.g.as
	}
	return w.g
}

func (r *raceState) id(g *gor) int {
	n, ok := r.ids[g]
	if !ok {
		n = len(r.ids)
		r.ids[g] = n
	}
	return n
}

type chanBack struct{ c *chanV } // what receivers release to senders

func (w *Worker) raceOn() bool { return w.race != nil }

func (r *raceState) clock(g *gor) vclock {
	v := r.vc[g]
	if v.at(r.id(g)) == 0 {
		n := make(vclock, max(len(v), r.id(g)+1))
		copy(n, v)
		n[r.id(g)] = 1
		v = n
		r.vc[g] = v
	}
	return v
}

func (w *Worker) raceRelease(k any) {
	r := w.race
	if r == nil {
		return
	}
	v := r.clock(w.me())
	r.sync[k] = join(r.sync[k], v)
	n := append(vclock(nil), v...)
	n[r.id(w.me())]++
	r.vc[w.me()] = n
}

func (w *Worker) raceAcquire(k any) {
	r := w.race
	if r == nil {
		return
	}
	if s, ok := r.sync[k]; ok {
		r.vc[w.me()] = join(r.clock(w.me()), s)
	}
}

func (w *Worker) raceSpawn(child *gor) {
	r := w.race
	if r == nil {
		return
	}
	v := r.clock(w.me())
	c := make(vclock, max(len(v), r.id(child)+1))
	copy(c, v)
	c[r.id(child)] = 1
	r.vc[child] = c
	n := append(vclock(nil), v...)
	n[r.id(w.me())]++
	r.vc[w.me()] = n
}

// raceJoinAll: everything done so far comes before what this goroutine does next.
func (w *Worker) raceJoinAll() {
	r := w.race
	if r == nil {
		return
	}
	v := r.clock(w.me())
	for _, o := range r.vc {
		v = join(v, o)
	}
	r.vc[w.me()] = v
}

// raced: the accesses of this function are recorded. Those of gocui are when it is the real one.
func (w *Worker) raced(cf *cfunc) bool {
	return cf.inRepo && !cf.harness || cf.ui && w.real["gocui_Gui_Update"]
}

func (w *Worker) raceFrame() bool {
	return w.race != nil && w.cur != nil && (w.raced(w.cur.cf) || w.cur.cf.pure && w.racePure())
}

func (w *Worker) raceMem(p *value, write bool) {
	if p == nil {
		return
	}
	switch x := (*p).(type) {
	case structure:
		for i := range x {
			w.raceMem(&x[i], write)
		}
		if len(x) > 0 {
			return
		}
	case array:
		for i := range x {
			w.raceMem(&x[i], write)
		}
		if len(x) > 0 {
			return
		}
	}
	w.raceAccess(p, write)
}

func (w *Worker) raceAccess(k any, write bool) {
	r := w.race
	c := r.cells[k]
	if c == nil {
		c = &raceCell{w: raceAcc{g: -1}}
		r.cells[k] = c
	}
	v := r.clock(w.me())
	me := r.id(w.me())
	if c.w.g >= 0 && c.w.g != me && c.w.c > v.at(c.w.g) {
		w.raceFound(k, c.w.at, "writes", write)
	}
	if write {
		for _, a := range c.rd {
			if a.g != me && a.c > v.at(a.g) {
				w.raceFound(k, a.at, "reads", write)
			}
		}
		c.rd = c.rd[:0]
		c.w = raceAcc{me, v.at(me), w.raceAt()}
		return
	}
	for i := range c.rd {
		if c.rd[i].g == me {
			c.rd[i].c = v.at(me)
			return
		}
	}
	c.rd = append(c.rd, raceAcc{me, v.at(me), w.raceAt()})
}

func (w *Worker) raceAt() string {
	return w.cur.cf.name
}

func (w *Worker) raceFound(k any, other, what string, write bool) {
	name := w.raceName(k)
	label := "no data race on " + name
	if w.race.seen[label] {
		return
	}
	w.race.seen[label] = true
	if w.pos < len(w.prefix) {
		return // reported when the prefix was first run
	}
	me := "reads"
	if write {
		me = "writes"
	}
	w.violation("race", label, fmt.Sprintf("%s %s it and %s %s it%s", other, what, w.cur.cf.name, me, w.whereStr()), w.model)
}

// raceName: the package-level variable through which the memory is reached.
func (w *Worker) raceName(k any) string {
	type item struct {
		p    *value
		t    types.Type
		name string
		deep bool // below an element of a slice or map: named like its container
	}
	var q []item
	for i, g := range w.p.globals {
		if g.Pkg == nil || !inRepoPkg(g.Pkg.Pkg.Path()) || i >= len(w.globals) || w.globals[i] == nil {
			continue
		}
		q = append(q, item{w.globals[i], g.Type().(*types.Pointer).Elem(), g.Pkg.Pkg.Name() + "." + g.Name(), false})
	}
	seen := map[*value]bool{}
	for n := 0; len(q) > 0 && n < 300000; n++ {
		it := q[0]
		q = q[1:]
		if it.p == nil || seen[it.p] {
			continue
		}
		seen[it.p] = true
		if it.p == k {
			return it.name
		}
		el := func(p *value, t types.Type, f string) {
			name := it.name
			if !it.deep && f != "" {
				name += "." + f
			}
			q = append(q, item{p, t, name, it.deep || f == ""})
		}
		switch x := (*it.p).(type) {
		case structure:
			st, ok := it.t.Underlying().(*types.Struct)
			for i := range x {
				if ok && i < st.NumFields() {
					el(&x[i], st.Field(i).Type(), st.Field(i).Name())
				}
			}
		case array:
			if a, ok := it.t.Underlying().(*types.Array); ok {
				for i := range x {
					el(&x[i], a.Elem(), "")
				}
			}
		case sliceV:
			if a, ok := it.t.Underlying().(*types.Slice); ok && len(x) < 4096 {
				full := x[:cap(x)]
				for i := range full {
					el(&full[i], a.Elem(), "")
				}
			}
		case *value:
			if p, ok := it.t.Underlying().(*types.Pointer); ok {
				q = append(q, item{x, p.Elem(), it.name, it.deep})
			}
		case *mapV:
			if x == nil {
				continue
			}
			if any(x) == k {
				return it.name
			}
			if m, ok := it.t.Underlying().(*types.Map); ok {
				for i := range x.vals {
					if !x.dead[i] {
						el(x.vals[i], m.Elem(), "")
					}
				}
			}
		}
	}
	return "memory shared by goroutines"
}

// isHarness: the function is of a harness file laid over the repository.
func (p *Program) isHarness(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	if !f.Pos().IsValid() {
		return false
	}
	file := p.prog.Fset.Position(f.Pos()).Filename
	return strings.HasPrefix(filepath.Base(file), "zz_verif") || p.overlaid[file]
}

func init() {
	// Detached runs f now, but nothing orders what it does with what follows.
	intrinsics[symMod("Detached")] = func(w *Worker, _ *ssa.Function, a []value) value {
		if w.race == nil {
			return w.call(a[0], nil, 0)
		}
		as, old := &gor{}, w.g.as
		w.raceSpawn(as)
		w.g.as = as
		r := w.call(a[0], nil, 0)
		w.g.as = old
		return r
	}
	intrinsics[symMod("Clock")] = func(w *Worker, _ *ssa.Function, a []value) value {
		w.clock = 1000 * int(a[0].(*Term).val)
		return nil
	}
	intrinsics[symMod("Digits")] = func(w *Worker, _ *ssa.Function, a []value) value {
		w.digits = w.branch(a[0].(*Term))
		return nil
	}
	intrinsics[symMod("Races")] = func(w *Worker, _ *ssa.Function, a []value) value {
		if w.branch(a[0].(*Term)) {
			w.race = &raceState{ids: map[*gor]int{}, vc: map[*gor]vclock{}, sync: map[any]vclock{}, cells: map[any]*raceCell{}, seen: map[string]bool{}}
		} else {
			w.race = nil
		}
		return nil
	}
}

func (w *Worker) raceBuiltin(name string, args []value) {
	read := func(s sliceV) {
		for i := range s {
			w.raceMem(&s[i], false)
		}
	}
	switch name {
	case "append":
		dst, _ := args[0].(sliceV)
		add, _ := args[1].(sliceV)
		n := len(add)
		if s, ok := args[1].(Str); ok && !s.opaque && s.alts == nil {
			n = s.length()
		}
		read(add)
		if len(dst)+n <= cap(dst) {
			full := dst[:len(dst)+n]
			for i := len(dst); i < len(full); i++ {
				w.raceMem(&full[i], true)
			}
		} else {
			read(dst)
		}
	case "copy":
		dst, _ := args[0].(sliceV)
		n := len(dst)
		if src, ok := args[1].(sliceV); ok {
			n = min(n, len(src))
			read(src[:n])
		} else if s, ok := args[1].(Str); ok && !s.opaque && s.alts == nil {
			n = min(n, s.length())
		}
		for i := range dst[:n] {
			w.raceMem(&dst[i], true)
		}
	case "len":
		if m, ok := args[0].(*mapV); ok && m != nil {
			w.raceAccess(m, false)
		}
	case "delete", "clear":
		if m, ok := args[0].(*mapV); ok && m != nil {
			w.raceAccess(m, true)
		}
		if x, ok := args[0].(sliceV); ok {
			for i := range x {
				w.raceMem(&x[i], true)
			}
		}
	}
}

// raceAtomic: atomic operations on one variable are ordered.
func (w *Worker) raceAtomic(v value) {
	if w.race == nil {
		return
	}
	p := w.ptr(v)
	w.raceAcquire(p)
	w.raceRelease(p)
}

// racePure: the function of the standard library running works for the repository.
func (w *Worker) racePure() bool {
	f := w.cur
	for f != nil && f.cf.pure {
		f = f.caller
	}
	return f != nil && w.raced(f.cf)
}

// raceArgs: a function that is not followed is called with the arguments.
func (w *Worker) raceArgs(cf *cfunc, args []value) {
	if hasPrefix(cf.name, modPath+"/zzverif") {
		return
	}
	if hasPrefix(cf.name, "fmt.") || hasPrefix(cf.name, "log.") {
		for _, a := range args {
			w.raceDeep(a, -1)
		}
		return
	}
	write := strings.Contains(cf.name, "Read")
	for _, a := range args {
		if s, ok := a.(sliceV); ok {
			for i := range s[:min(len(s), 4096)] {
				w.raceMem(&s[i], write)
			}
		}
	}
}

// raceDeep: what fmt reads of a value.
func (w *Worker) raceDeep(v value, depth int) {
	if depth > 6 {
		return
	}
	switch x := v.(type) {
	case iface:
		if x.t == nil {
			return
		}
		ms := types.NewMethodSet(x.t)
		if ms.Lookup(nil, "String") != nil || ms.Lookup(nil, "Error") != nil {
			return // its code is followed
		}
		w.raceDeep(x.v, depth)
	case sliceV:
		for i := range x[:min(len(x), 4096)] {
			w.raceMem(&x[i], false)
			w.raceDeep(x[i], depth+1)
		}
	case structure:
		for i := range x {
			w.raceDeep(x[i], depth+1)
		}
	case array:
		for i := range x {
			w.raceDeep(x[i], depth+1)
		}
	case *mapV:
		if x != nil {
			w.raceAccess(x, false)
			for i := range x.vals {
				if !x.dead[i] {
					w.raceDeep(*x.vals[i], depth+1)
				}
			}
		}
	case *value:
		if x != nil && depth <= 0 {
			switch (*x).(type) {
			case structure, array, sliceV, *mapV:
				w.raceMem(x, false)
				w.raceDeep(*x, depth+1)
			}
		}
	}
}
