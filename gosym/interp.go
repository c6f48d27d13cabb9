package main

import (
	"fmt"
	"go/token"
	"go/types"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type goPanic struct {
	v     iface
	where string
}
type exitPath struct {
	code int
	msg  string
}
type stopPath struct{ kind, msg string } // assumption failed, unsupported, limits, abort

type deferred struct {
	fn   value
	args []value
	cf   *ssa.Function
}

type frame struct {
	cf        *cfunc
	regs      []value
	defers    []deferred
	block     int
	prev      int
	result    value
	panicking bool
	panicVal  any
	done      bool
	recovered bool
	caller    *frame
	callpos   token.Pos
	depth     int
}

func (w *Worker) unsupported(msg string) {
	panic(stopPath{"unsupported", msg + w.whereStr()})
}

func (w *Worker) whereStr() string {
	fr := w.cur
	s := ""
	for i := 0; fr != nil && i < 4; i++ {
		s += " < " + fr.cf.name
		fr = fr.caller
	}
	return s
}

func (w *Worker) goPanicStr(msg string) {
	panic(goPanic{v: iface{t: w.p.runtimeErrType(), v: Str{s: msg}}, where: w.whereStr()})
}

func (w *Worker) get(fr *frame, o *oper) value {
	switch o.kind {
	case kReg:
		return fr.regs[o.idx]
	case kConst:
		return w.constant(o)
	case kGlobal:
		return w.global(o.idx, o.v.(*ssa.Global))
	case kFunc:
		return o.v
	case kBuiltin:
		return o.v
	}
	return nil
}

func (w *Worker) constant(o *oper) value {
	for int(o.idx) >= len(w.consts) {
		w.consts = append(w.consts, make([]value, int(o.idx)+256-len(w.consts))...)
	}
	v := w.consts[o.idx]
	if v == nil {
		v = w.constVal(o.v.(*ssa.Const))
		w.consts[o.idx] = v
	}
	switch v.(type) {
	case structure, array:
		return copyVal(v)
	}
	return v
}

type poison struct{ why string }

func (w *Worker) global(idx int32, g *ssa.Global) *value {
	for int(idx) >= len(w.globals) {
		w.globals = append(w.globals, make([]*value, int(idx)+256-len(w.globals))...)
	}
	p := w.globals[idx]
	if p == nil {
		p = new(value)
		*p = w.zero(g.Type().(*types.Pointer).Elem())
		w.globals[idx] = p
	}
	return p
}

func (w *Worker) store(p *value, v value) {
	if p == nil {
		w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	switch x := v.(type) {
	case structure:
		if old, ok := (*p).(structure); ok && len(old) == len(x) {
			for i := range x {
				w.store(&old[i], x[i])
			}
			return
		}
		v = copyVal(v)
	case array:
		if old, ok := (*p).(array); ok && len(old) == len(x) {
			for i := range x {
				w.store(&old[i], x[i])
			}
			return
		}
		v = copyVal(v)
	}
	w.undo = append(w.undo, undoRec{p: p, old: *p})
	*p = v
}

func (w *Worker) load(p *value) value {
	if p == nil {
		w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	v := *p
	switch x := v.(type) {
	case structure, array:
		return copyVal(v)
	case poison:
		w.unsupported("uninitialised global (" + x.why + ")")
	}
	return v
}

type undoRec struct {
	p   *value
	old value
	fn  func()
}

func (w *Worker) undoFn(fn func()) { w.undo = append(w.undo, undoRec{fn: fn}) }

func (w *Worker) rollback(mark int) {
	for i := len(w.undo) - 1; i >= mark; i-- {
		u := &w.undo[i]
		if u.fn != nil {
			u.fn()
		} else {
			*u.p = u.old
		}
		w.undo[i] = undoRec{}
	}
	w.undo = w.undo[:mark]
}

// ---- calls -------------------------------------------------------------------

func (w *Worker) call(fnv value, args []value, pos token.Pos) value {
	switch fn := fnv.(type) {
	case *ssa.Function:
		return w.callFn(fn, args, nil, pos)
	case *closure:
		if fn == nil {
			w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return w.callFn(fn.fn, args, fn.env, pos)
	case *ssa.Builtin:
		return w.builtin(fn.Name(), args, nil)
	case hostFn:
		return fn(w, args)
	}
	w.unsupported(fmt.Sprintf("call of %T", fnv))
	return nil
}

type hostFn func(w *Worker, args []value) value

func (w *Worker) callFn(fn *ssa.Function, args []value, env []value, pos token.Pos) value {
	cf := w.p.fn(fn)
	if w.race != nil && !cf.inRepo && !cf.pure && w.raceFrame() {
		w.raceArgs(cf, args)
	}
	if cf.intr != nil {
		if w.trace != nil {
			w.trace[cf.name] = true
		}
		if !cf.fmtLike {
			for i, a := range args {
				if s, ok := a.(Str); ok && s.alts != nil {
					args = append([]value{}, args...)
					args[i] = w.fs(s)
				}
			}
		}
		return cf.intr(w, fn, args)
	}
	if cf.redirect != nil && !w.real[cf.redirect.Name()] {
		if w.trace != nil {
			w.trace[cf.name+" (stub)"] = true
		}
		return w.callFn(cf.redirect, args, env, pos)
	}
	if cf.merge && w.sub == nil && w.race == nil && !w.mapOrder && !w.initialising && symbolicArg(args) {
		if v, ok := w.mergeCall(fn, args); ok {
			w.encoded[cf.name]++
			return v
		}
	}
	if len(cf.blocks) == 0 {
		w.unsupported("no body for " + cf.name)
	}
	if w.stopFns != nil && w.stopFns[cf.name] {
		w.unsupported("call of " + cf.name)
	}
	if cf.inRepo {
		w.encoded[cf.name]++
	}
	depth := 0
	if w.cur != nil {
		depth = w.cur.depth + 1
	}
	if depth > 4000 {
		panic(stopPath{"hang", "call depth limit in " + cf.name})
	}
	fr := &frame{cf: cf, regs: make([]value, cf.nregs), caller: w.cur, callpos: pos, depth: depth, prev: -1}
	n := copy(fr.regs, args)
	copy(fr.regs[n:], env)
	saved := w.cur
	w.cur = fr
	if !cf.hasDefer {
		w.run(fr)
		w.cur = saved
		return fr.result
	}
	for !fr.done {
		w.runProtected(fr)
	}
	w.cur = saved
	return fr.result
}

func (w *Worker) runProtected(fr *frame) {
	defer func() {
		if fr.done {
			return
		}
		r := recover()
		if _, ok := r.(goPanic); !ok {
			panic(r) // engine stop, exit, or host bug: no interpreted defers run
		}
		w.cur = fr
		fr.panicking = true
		fr.panicVal = r
		w.runDefers(fr)
		// recovered
		if fr.cf.recover >= 0 {
			fr.block = fr.cf.recover
			fr.prev = -1
		} else {
			fr.result = w.zeroResults(fr.cf.fn)
			fr.done = true
		}
	}()
	w.run(fr)
	fr.done = true
}

func (w *Worker) zeroResults(fn *ssa.Function) value {
	rs := fn.Signature.Results()
	switch rs.Len() {
	case 0:
		return nil
	case 1:
		return w.zero(rs.At(0).Type())
	}
	return w.zero(rs)
}

func (w *Worker) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		w.runDefer(fr, d)
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (w *Worker) runDefer(fr *frame, d deferred) {
	ok := false
	defer func() {
		if !ok {
			r := recover()
			if _, g := r.(goPanic); !g {
				panic(r)
			}
			w.cur = fr
			fr.panicking = true
			fr.panicVal = r
		}
	}()
	w.cur = fr
	w.call(d.fn, d.args, token.NoPos)
	w.cur = fr
	ok = true
}

// recover() as called by the deferred function whose caller frame is panicking
func (w *Worker) doRecover() value {
	// w.cur is the frame of the deferred function; its caller is the panicking frame
	fr := w.cur
	if fr != nil && fr.caller != nil && fr.caller.panicking {
		fr.caller.panicking = false
		p := fr.caller.panicVal.(goPanic)
		fr.caller.panicVal = nil
		return p.v
	}
	return iface{}
}

// run executes fr until it returns.
func (w *Worker) run(fr *frame) {
	for {
		cb := &fr.cf.blocks[fr.block]
		ins := cb.ins
		// phis in parallel
		if cb.nphi > 0 {
			pi := -1
			for k, pb := range cb.b.Preds {
				if pb.Index == fr.prev {
					pi = k
					break
				}
			}
			var tmp [8]value
			vals := tmp[:0]
			for k := 0; k < cb.nphi; k++ {
				vals = append(vals, w.get(fr, &ins[k].o[pi]))
			}
			for k := 0; k < cb.nphi; k++ {
				fr.regs[ins[k].dst] = vals[k]
			}
		}
		w.steps += len(ins)
		if w.steps > w.maxSteps {
			panic(stopPath{"hang", "step limit in " + fr.cf.name})
		}
		next := -1
		for k := cb.nphi; k < len(ins); k++ {
			ci := &ins[k]
			switch in := ci.i.(type) {
			case *ssa.Jump:
				next = cb.succs[0]
			case *ssa.If:
				if w.branch(w.get(fr, &ci.o[0]).(*Term)) {
					next = cb.succs[0]
				} else {
					next = cb.succs[1]
				}
			case *ssa.Return:
				switch len(ci.o) {
				case 0:
					fr.result = nil
				case 1:
					fr.result = w.get(fr, &ci.o[0])
				default:
					r := make(tuple, len(ci.o))
					for j := range ci.o {
						r[j] = w.get(fr, &ci.o[j])
					}
					fr.result = r
				}
				return
			case *ssa.Panic:
				panic(goPanic{v: w.get(fr, &ci.o[0]).(iface), where: w.whereStr()})
			case *ssa.RunDefers:
				w.runDefers(fr)
			default:
				w.exec(fr, ci, in)
			}
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (w *Worker) exec(fr *frame, ci *cinstr, instr ssa.Instruction) {
	switch in := instr.(type) {
	case *ssa.Alloc:
		p := new(value)
		*p = w.zero(in.Type().(*types.Pointer).Elem())
		fr.regs[ci.dst] = p
	case *ssa.UnOp:
		fr.regs[ci.dst] = w.unop(in, w.get(fr, &ci.o[0]))
	case *ssa.BinOp:
		fr.regs[ci.dst] = w.binop(in.Op, in.X.Type(), w.get(fr, &ci.o[0]), w.get(fr, &ci.o[1]), in.Y.Type())
	case *ssa.Store:
		p := w.ptr(w.get(fr, &ci.o[0]))
		if w.preempt {
			w.maybeYieldMem(p)
		}
		if w.raceFrame() {
			w.raceMem(p, true)
		}
		w.store(p, w.get(fr, &ci.o[1]))
	case *ssa.Call:
		fn, args := w.prepCall(fr, ci, &in.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			fr.regs[ci.dst] = w.builtin(b.Name(), args, &in.Call)
		} else {
			fr.regs[ci.dst] = w.call(fn, args, in.Pos())
		}
		w.cur = fr
	case *ssa.Defer:
		fn, args := w.prepCall(fr, ci, &in.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			cc := &in.Call
			name := b.Name()
			fn = hostFn(func(w *Worker, a []value) value { return w.builtin(name, a, cc) })
		}
		fr.defers = append(fr.defers, deferred{fn: fn, args: args})
	case *ssa.Go:
		fn, args := w.prepCall(fr, ci, &in.Call)
		w.spawn(fn, args)
	case *ssa.FieldAddr:
		p := w.ptr(w.get(fr, &ci.o[0]))
		if p == nil {
			w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		s, ok := (*p).(structure)
		if !ok {
			w.unsupported(fmt.Sprintf("field of %T", *p))
		}
		fr.regs[ci.dst] = &s[in.Field]
	case *ssa.Field:
		s, ok := w.get(fr, &ci.o[0]).(structure)
		if !ok {
			w.unsupported("field of opaque value")
		}
		fr.regs[ci.dst] = copyVal(s[in.Field])
	case *ssa.IndexAddr:
		x := w.get(fr, &ci.o[0])
		idx := w.get(fr, &ci.o[1]).(*Term)
		var el []value
		switch s := x.(type) {
		case sliceV:
			el = s
		case *value:
			if s == nil {
				w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
			}
			el = (*s).(array)
		default:
			w.unsupported(fmt.Sprintf("index address of %T", x))
		}
		_, signed, _ := intType(in.Index.Type())
		if !idx.isConst() && len(el) > 0 && len(el) <= 256 && allTerms(el) {
			if !w.branch(w.inBounds(idx, signed, len(el))) {
				w.goPanicStr(fmt.Sprintf("runtime error: index out of range with length %d", len(el)))
			}
			fr.regs[ci.dst] = symRef{el, idx}
			return
		}
		i := w.index(idx, signed, len(el))
		fr.regs[ci.dst] = &el[i]
	case *ssa.Index:
		x := w.get(fr, &ci.o[0])
		idx := w.get(fr, &ci.o[1]).(*Term)
		_, signed, _ := intType(in.Index.Type())
		switch s := x.(type) {
		case array:
			fr.regs[ci.dst] = copyVal(w.indexVal(s, idx, signed))
		case Str:
			fr.regs[ci.dst] = w.indexStr(s, idx, signed)
		default:
			w.unsupported(fmt.Sprintf("index of %T", x))
		}
	case *ssa.Lookup:
		x := w.get(fr, &ci.o[0])
		k := w.get(fr, &ci.o[1])
		if s, ok := x.(Str); ok {
			_, signed, _ := intType(in.Index.Type())
			fr.regs[ci.dst] = w.indexStr(s, k.(*Term), signed)
			return
		}
		mt := in.X.Type().Underlying().(*types.Map)
		m := x.(*mapV)
		if m != nil && w.raceFrame() {
			w.raceAccess(m, false)
		}
		i := w.mapFind(m, mt.Key(), k)
		var v value
		if i >= 0 {
			v = copyVal(*m.vals[i])
		} else {
			v = w.zero(mt.Elem())
		}
		if in.CommaOk {
			fr.regs[ci.dst] = tuple{v, w.f.Bool(i >= 0)}
		} else {
			fr.regs[ci.dst] = v
		}
	case *ssa.MapUpdate:
		m := w.get(fr, &ci.o[0]).(*mapV)
		if m == nil {
			w.goPanicStr("assignment to entry in nil map")
		}
		if w.raceFrame() {
			w.raceAccess(m, true)
		}
		mt := in.Map.Type().Underlying().(*types.Map)
		w.mapSet(m, mt.Key(), w.get(fr, &ci.o[1]), w.get(fr, &ci.o[2]))
	case *ssa.Extract:
		fr.regs[ci.dst] = w.get(fr, &ci.o[0]).(tuple)[in.Index]
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = iface{t: in.X.Type(), v: copyVal(w.get(fr, &ci.o[0]))}
	case *ssa.ChangeInterface, *ssa.ChangeType:
		fr.regs[ci.dst] = w.get(fr, &ci.o[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = w.convert(in.X.Type(), in.Type(), w.get(fr, &ci.o[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = w.convert(in.X.Type(), in.Type(), w.get(fr, &ci.o[0]))
	case *ssa.SliceToArrayPointer:
		s := w.get(fr, &ci.o[0]).(sliceV)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if len(s) < n {
			w.goPanicStr("runtime error: cannot convert slice to array pointer")
		}
		p := new(value)
		*p = array(s[:n:n])
		fr.regs[ci.dst] = p
	case *ssa.MakeClosure:
		env := make([]value, len(ci.o)-1)
		for j := range env {
			env[j] = w.get(fr, &ci.o[j+1])
		}
		fr.regs[ci.dst] = &closure{fn: in.Fn.(*ssa.Function), env: env}
	case *ssa.MakeSlice:
		n := w.sizeArg(w.get(fr, &ci.o[0]), "makeslice: len out of range")
		c := n
		if ci.o[1].kind != kNone {
			c = w.sizeArg(w.get(fr, &ci.o[1]), "makeslice: cap out of range")
		}
		if c < n {
			w.goPanicStr("runtime error: makeslice: cap out of range")
		}
		et := in.Type().Underlying().(*types.Slice).Elem()
		fr.regs[ci.dst] = w.makeSlice(et, n, c)
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap()
	case *ssa.MakeChan:
		n := w.sizeArg(w.get(fr, &ci.o[0]), "makechan: size out of range")
		fr.regs[ci.dst] = &chanV{cap: n, et: in.Type().Underlying().(*types.Chan).Elem()}
	case *ssa.Slice:
		fr.regs[ci.dst] = w.slice(in, w.get(fr, &ci.o[0]), w.getOpt(fr, ci, 1), w.getOpt(fr, ci, 2), w.getOpt(fr, ci, 3))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = w.typeAssert(in, w.get(fr, &ci.o[0]).(iface))
	case *ssa.Range:
		x := w.get(fr, &ci.o[0])
		switch s := x.(type) {
		case Str:
			s = w.fs(s)
			if s.opaque {
				w.unsupported("range over formatted symbolic string")
			}
			fr.regs[ci.dst] = &iterV{str: &s}
		case *mapV:
			if s != nil && w.raceFrame() {
				w.raceAccess(s, false)
			}
			it := &iterV{m: s}
			if s != nil {
				for i := range s.keys {
					if !s.dead[i] {
						it.ord = append(it.ord, i)
					}
				}
				if w.mapOrder && len(it.ord) > 1 && w.choose(2, "maporder") == 1 {
					for a, b := 0, len(it.ord)-1; a < b; a, b = a+1, b-1 {
						it.ord[a], it.ord[b] = it.ord[b], it.ord[a]
					}
				}
			}
			fr.regs[ci.dst] = it
		default:
			w.unsupported(fmt.Sprintf("range over %T", x))
		}
	case *ssa.Next:
		if it := w.get(fr, &ci.o[0]).(*iterV); it.m != nil && w.raceFrame() {
			w.raceAccess(it.m, false)
		}
		fr.regs[ci.dst] = w.next(in, w.get(fr, &ci.o[0]).(*iterV))
	case *ssa.Send:
		w.chanSend(w.get(fr, &ci.o[0]).(*chanV), copyVal(w.get(fr, &ci.o[1])))
		w.cur = fr
	case *ssa.Select:
		fr.regs[ci.dst] = w.selectOp(fr, ci, in)
		w.cur = fr
	default:
		w.unsupported(fmt.Sprintf("instruction %T", instr))
	}
}

func (w *Worker) ptr(v value) *value {
	switch p := v.(type) {
	case *value:
		return p
	case nil:
		return nil
	case symRef:
		return &p.el[w.concretize(p.idx)]
	case poison:
		w.unsupported("uninitialised value (" + p.why + ")")
	}
	w.unsupported(fmt.Sprintf("pointer of kind %T", v))
	return nil
}

// symRef is the address of an element at a symbolic (in-range) index.
type symRef struct {
	el  []value
	idx *Term
}

func allTerms(el []value) bool {
	for _, e := range el {
		if _, ok := e.(*Term); !ok {
			return false
		}
	}
	return true
}

func (w *Worker) getOpt(fr *frame, ci *cinstr, i int) *Term {
	if i >= len(ci.o) || ci.o[i].kind == kNone {
		return nil
	}
	return w.get(fr, &ci.o[i]).(*Term)
}

func (w *Worker) makeSlice(et types.Type, n, c int) sliceV {
	s := make(sliceV, c)
	if c > 0 {
		z := w.zero(et)
		switch z.(type) {
		case structure, array:
			for i := range s {
				s[i] = w.zero(et)
			}
		default:
			for i := range s {
				s[i] = z
			}
		}
	}
	return s[:n]
}

// sizeArg concretises an allocation size.
func (w *Worker) sizeArg(v value, msg string) int {
	t := v.(*Term)
	lim := uint64(w.allocBound)
	if !t.isConst() {
		t64 := t
		if t.w < 64 {
			t64 = w.f.ZExt(t, 64)
		}
		if w.branch(w.f.Slt(t64, w.f.Const(64, 0))) {
			w.goPanicStr("runtime error: " + msg)
		}
		if w.branch(w.f.Ult(w.f.Const(64, lim), t64)) {
			panic(stopPath{"bound", "allocation larger than the bound"})
		}
		return int(w.concretize(t64))
	}
	n := sx(t.val, t.w)
	if n < 0 || n > 1<<40 {
		w.goPanicStr("runtime error: " + msg)
	}
	if n > 1<<22 {
		panic(stopPath{"bound", "allocation larger than the bound"})
	}
	return int(n)
}

// index checks bounds (forking) and returns a concrete index.
func (w *Worker) index(t *Term, signed bool, n int) int {
	if t.isConst() {
		i := int64(t.val)
		if signed {
			i = sx(t.val, t.w)
		}
		if i < 0 || i >= int64(n) {
			w.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i)
	}
	if !w.branch(w.inBounds(t, signed, n)) {
		w.goPanicStr(fmt.Sprintf("runtime error: index out of range with length %d", n))
	}
	return int(w.concretize(t))
}

func (w *Worker) inBounds(t *Term, signed bool, n int) *Term {
	t64 := w.f.Conv(t, 64, signed)
	return w.f.Ult(t64, w.f.Const(64, uint64(n)))
}

func (w *Worker) indexVal(el []value, t *Term, signed bool) value {
	if t.isConst() {
		return el[w.index(t, signed, len(el))]
	}
	if !w.branch(w.inBounds(t, signed, len(el))) {
		w.goPanicStr(fmt.Sprintf("runtime error: index out of range with length %d", len(el)))
	}
	allTerms := len(el) <= 256
	for _, e := range el {
		if _, ok := e.(*Term); !ok {
			allTerms = false
			break
		}
	}
	if !allTerms {
		return el[w.concretize(t)]
	}
	// default: the most frequent element
	cnt := map[*Term]int{}
	var r *Term
	for _, e := range el {
		t := e.(*Term)
		cnt[t]++
		if r == nil || cnt[t] > cnt[r] {
			r = t
		}
	}
	if t.uhi < uint64(len(el)-1) && nonneg(t) {
		el = el[:t.uhi+1]
	}
	d := r
	for i := len(el) - 1; i >= 0; i-- {
		if e := el[i].(*Term); e != d {
			r = w.f.Ite(w.f.Eq(t, w.f.Const(t.w, uint64(i))), e, r)
		}
	}
	return r
}

func (w *Worker) indexStr(s Str, t *Term, signed bool) value {
	s = w.fs(s)
	if s.opaque {
		w.unsupported("index of formatted symbolic string")
	}
	if t.isConst() {
		return w.strByte(s, w.index(t, signed, s.length()))
	}
	b := w.strBytes(s)
	el := make([]value, len(b))
	for i := range b {
		el[i] = b[i]
	}
	if len(el) == 0 {
		w.goPanicStr("runtime error: index out of range with length 0")
	}
	return w.indexVal(el, t, signed)
}

func (w *Worker) unop(in *ssa.UnOp, x value) value {
	switch in.Op {
	case token.MUL:
		if r, ok := x.(symRef); ok {
			if w.raceFrame() {
				for i := range r.el {
					w.raceMem(&r.el[i], false)
				}
			}
			return w.indexVal(r.el, r.idx, false)
		}
		if d, ok := x.(dataPtr); ok {
			if len(d.sl) > 0 {
				return d.sl[0]
			}
			w.unsupported("load through data pointer")
		}
		p := w.ptr(x)
		if w.preempt {
			w.maybeYieldMem(p)
		}
		if w.raceFrame() {
			w.raceMem(p, false)
		}
		return w.load(p)
	case token.NOT:
		return w.f.BNot(x.(*Term))
	case token.SUB:
		switch v := x.(type) {
		case *Term:
			return w.f.Bin(OSub, w.f.Const(v.w, 0), v)
		case float64:
			return -v
		case symFloat:
			return symFloat{w.f.Bin(OSub, w.f.Const(64, 0), v.t)}
		case complex128:
			return -v
		}
	case token.XOR:
		return w.f.Not(x.(*Term))
	case token.ARROW:
		v, ok := w.chanRecv(x.(*chanV))
		if in.CommaOk {
			return tuple{v, w.f.Bool(ok)}
		}
		return v
	}
	w.unsupported("unop " + in.Op.String())
	return nil
}

func (w *Worker) binop(op token.Token, t types.Type, x, y value, yt types.Type) value {
	switch op {
	case token.EQL:
		return w.eqOp(t, yt, x, y)
	case token.NEQ:
		return w.f.BNot(w.eqOp(t, yt, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok {
			break
		}
		wd, signed, _ := intType(t)
		if wd == 0 {
			switch op {
			case token.AND, token.LAND:
				return w.f.BAnd(a, b)
			case token.OR, token.LOR:
				return w.f.BOr(a, b)
			}
			break
		}
		switch op {
		case token.ADD:
			return w.f.Bin(OAdd, a, b)
		case token.SUB:
			return w.f.Bin(OSub, a, b)
		case token.MUL:
			return w.f.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if !w.branch(w.f.BNot(w.f.Eq(b, w.f.Const(b.w, 0)))) {
				w.goPanicStr("runtime error: integer divide by zero")
			}
			o := OUDiv
			switch {
			case op == token.QUO && signed:
				o = OSDiv
			case op == token.REM && signed:
				o = OSRem
			case op == token.REM:
				o = OURem
			}
			return w.f.Bin(o, a, b)
		case token.AND:
			return w.f.Bin(OAnd, a, b)
		case token.OR:
			return w.f.Bin(OOr, a, b)
		case token.XOR:
			return w.f.Bin(OXor, a, b)
		case token.AND_NOT:
			return w.f.Bin(OAnd, a, w.f.Not(b))
		case token.SHL, token.SHR:
			_, ysigned, _ := intType(yt)
			if ysigned {
				if w.branch(w.f.Slt(b, w.f.Const(b.w, 0))) {
					w.goPanicStr("runtime error: negative shift amount")
				}
			}
			return w.shift(op, a, b, signed)
		case token.LSS:
			if signed {
				return w.f.Slt(a, b)
			}
			return w.f.Ult(a, b)
		case token.LEQ:
			if signed {
				return w.f.Sle(a, b)
			}
			return w.f.Ule(a, b)
		case token.GTR:
			if signed {
				return w.f.Slt(b, a)
			}
			return w.f.Ult(b, a)
		case token.GEQ:
			if signed {
				return w.f.Sle(b, a)
			}
			return w.f.Ule(b, a)
		}
	case Str:
		b := y.(Str)
		switch op {
		case token.ADD:
			return w.concat(a, b)
		case token.LSS:
			return w.strLt(a, b)
		case token.GTR:
			return w.strLt(b, a)
		case token.LEQ:
			return w.f.BNot(w.strLt(b, a))
		case token.GEQ:
			return w.f.BNot(w.strLt(a, b))
		}
	case float64:
		if b, ok := y.(float64); ok {
			_, f32 := isFloat(t)
			r := func(v float64) value {
				if f32 {
					return float64(float32(v))
				}
				return v
			}
			switch op {
			case token.ADD:
				return r(a + b)
			case token.SUB:
				return r(a - b)
			case token.MUL:
				return r(a * b)
			case token.QUO:
				return r(a / b)
			case token.LSS:
				return w.f.Bool(a < b)
			case token.LEQ:
				return w.f.Bool(a <= b)
			case token.GTR:
				return w.f.Bool(a > b)
			case token.GEQ:
				return w.f.Bool(a >= b)
			}
		}
		if _, ok := y.(symFloat); ok && a == float64(int64(a)) {
			return w.binop(op, t, symFloat{w.f.Const(64, uint64(int64(a)))}, y, yt)
		}
	case symFloat:
		var b symFloat
		switch z := y.(type) {
		case symFloat:
			b = z
		case float64:
			if z == float64(int64(z)) {
				b = symFloat{w.f.Const(64, uint64(int64(z)))}
			} else {
				w.unsupported("symbolic float arithmetic")
			}
		}
		switch op {
		case token.LSS:
			return w.f.Slt(a.t, b.t)
		case token.LEQ:
			return w.f.Sle(a.t, b.t)
		case token.GTR:
			return w.f.Slt(b.t, a.t)
		case token.GEQ:
			return w.f.Sle(b.t, a.t)
		}
	case complex128:
		b := y.(complex128)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		}
	}
	w.unsupported(fmt.Sprintf("binop %s on %T", op, x))
	return nil
}

func (w *Worker) eqOp(t, yt types.Type, x, y value) *Term {
	// comparisons between an interface and a concrete value are made explicit by go/ssa
	if _, ok := x.(dataPtr); ok {
		return w.f.False
	}
	return w.eq(t, x, y)
}

func (w *Worker) shift(op token.Token, a, b *Term, signed bool) *Term {
	var amt *Term
	big := w.f.False
	if b.w > a.w {
		big = w.f.Ule(w.f.Const(b.w, uint64(a.w)), b)
		amt = w.f.Extract(b, a.w-1, 0)
	} else {
		amt = w.f.ZExt(b, a.w)
	}
	o := OShl
	if op == token.SHR {
		o = OLShr
		if signed {
			o = OAShr
		}
	}
	r := w.f.Bin(o, a, amt)
	if big != w.f.False {
		var over *Term
		if o == OAShr {
			over = w.f.Bin(OAShr, a, w.f.Const(a.w, uint64(a.w-1)))
		} else {
			over = w.f.Const(a.w, 0)
		}
		r = w.f.Ite(big, over, r)
	}
	return r
}

func (w *Worker) slice(in *ssa.Slice, x value, lo, hi, mx *Term) value {
	var n, c int
	isStr := false
	var st Str
	var el []value
	switch s := x.(type) {
	case sliceV:
		n, c, el = len(s), cap(s), s[:cap(s)]
	case Str:
		if s.opaque && lo == nil && hi == nil {
			return s
		}
		s = w.fs(s)
		if s.opaque {
			w.unsupported("slice of formatted symbolic string")
		}
		n, c, isStr, st = s.length(), s.length(), true, s
	case *value:
		if s == nil {
			w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		a := (*s).(array)
		n, c, el = len(a), len(a), a
	default:
		w.unsupported(fmt.Sprintf("slice of %T", x))
	}
	bound := func(t *Term, lim int, dflt int) int {
		if t == nil {
			return dflt
		}
		if t.isConst() {
			v := sx(t.val, t.w)
			if v < 0 || v > int64(lim) {
				w.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d] with capacity %d", v, lim))
			}
			return int(v)
		}
		t64 := w.f.SExt(t, 64)
		if !w.branch(w.f.Ule(t64, w.f.Const(64, uint64(lim)))) {
			w.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range with capacity %d", lim))
		}
		return int(w.concretize(t))
	}
	m := bound(mx, c, c)
	h := bound(hi, m, min(n, m))
	if hi == nil && mx != nil && n > m {
		w.goPanicStr("runtime error: slice bounds out of range")
	}
	l := bound(lo, h, 0)
	if isStr {
		return w.subStr(st, l, h)
	}
	if s, ok := x.(sliceV); ok && s == nil {
		return sliceV(nil)
	}
	return sliceV(el[l:h:m])
}

func (w *Worker) typeAssert(in *ssa.TypeAssert, x iface) value {
	ok := false
	var v value
	if x.t != nil {
		if it, isI := in.AssertedType.Underlying().(*types.Interface); isI {
			if implements(x.t, it) {
				ok, v = true, x
			}
		} else if identical(x.t, in.AssertedType) {
			ok, v = true, x.v
		}
	}
	if in.CommaOk {
		if !ok {
			v = w.zero(in.AssertedType)
		}
		return tuple{copyVal(v), w.f.Bool(ok)}
	}
	if !ok {
		ts := "nil"
		if x.t != nil {
			ts = x.t.String()
		}
		w.goPanicStr("interface conversion: interface is " + ts + ", not " + in.AssertedType.String())
	}
	return copyVal(v)
}

func implements(t types.Type, it *types.Interface) bool {
	if it.NumMethods() == 0 {
		return true
	}
	return types.Implements(t, it)
}

func (w *Worker) nextS(it *iterV) tuple {
	s := *it.str
	n := s.length()
	if it.si >= n {
		return tuple{w.f.False, w.intv(0), w.f.Const(32, 0)}
	}
	i := it.si
	var bs []*Term
	for j := i; j < n && j < i+4; j++ {
		bs = append(bs, w.strByte(s, j))
	}
	r, sz := w.decodeRune(bs)
	it.si += sz
	return tuple{w.f.True, w.intv(i), r}
}

// decodeRune decodes the first rune of 1 to 4 bytes, as package utf8 does.
func (w *Worker) decodeRune(bs []*Term) (*Term, int) {
	f := w.f
	all := true
	var buf []byte
	for _, b := range bs {
		all = all && b.isConst()
		buf = append(buf, byte(b.val))
	}
	if all {
		r, sz := utf8.DecodeRune(buf)
		return f.Const(32, uint64(uint32(r))), sz
	}
	in := func(b *Term, lo, hi uint64) *Term {
		return f.BAnd(f.Ule(f.Const(8, lo), b), f.Ule(b, f.Const(8, hi)))
	}
	cont := func(b *Term) *Term { return in(b, 0x80, 0xbf) }
	bits := func(b *Term, mask uint64, shift uint64) *Term {
		return f.Bin(OShl, f.Bin(OAnd, f.ZExt(b, 32), f.Const(32, mask)), f.Const(32, shift))
	}
	or := func(a, b *Term) *Term { return f.Bin(OOr, a, b) }
	b0 := bs[0]
	if w.branch(f.Ult(b0, f.Const(8, 0x80))) {
		return f.ZExt(b0, 32), 1
	}
	if len(bs) > 1 && w.branch(f.BAnd(in(b0, 0xc2, 0xdf), cont(bs[1]))) {
		return or(bits(b0, 0x1f, 6), bits(bs[1], 0x3f, 0)), 2
	}
	if len(bs) > 2 {
		lead := f.BOr(f.BOr(f.BAnd(f.Eq(b0, f.Const(8, 0xe0)), in(bs[1], 0xa0, 0xbf)), f.BAnd(f.Eq(b0, f.Const(8, 0xed)), in(bs[1], 0x80, 0x9f))),
			f.BAnd(f.BOr(in(b0, 0xe1, 0xec), in(b0, 0xee, 0xef)), cont(bs[1])))
		if w.branch(f.BAnd(lead, cont(bs[2]))) {
			return or(or(bits(b0, 0xf, 12), bits(bs[1], 0x3f, 6)), bits(bs[2], 0x3f, 0)), 3
		}
	}
	if len(bs) > 3 {
		lead := f.BOr(f.BOr(f.BAnd(f.Eq(b0, f.Const(8, 0xf0)), in(bs[1], 0x90, 0xbf)), f.BAnd(f.Eq(b0, f.Const(8, 0xf4)), in(bs[1], 0x80, 0x8f))),
			f.BAnd(in(b0, 0xf1, 0xf3), cont(bs[1])))
		if w.branch(f.BAnd(lead, f.BAnd(cont(bs[2]), cont(bs[3])))) {
			return or(or(bits(b0, 0x7, 18), bits(bs[1], 0x3f, 12)), or(bits(bs[2], 0x3f, 6), bits(bs[3], 0x3f, 0))), 4
		}
	}
	return f.Const(32, utf8.RuneError), 1
}

func (w *Worker) next(in *ssa.Next, it *iterV) value {
	if in.IsString {
		return w.nextS(it)
	}
	mt := in.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
	for it.m != nil && it.pos < len(it.ord) {
		i := it.ord[it.pos]
		it.pos++
		if i < len(it.m.keys) && !it.m.dead[i] {
			return tuple{w.f.True, copyVal(it.m.keys[i]), copyVal(*it.m.vals[i])}
		}
	}
	return tuple{w.f.False, w.zero(mt.Key()), w.zero(mt.Elem())}
}

func (w *Worker) prepCall(fr *frame, ci *cinstr, c *ssa.CallCommon) (value, []value) {
	nargs := len(c.Args)
	if c.IsInvoke() {
		recv := w.get(fr, &ci.o[0]).(iface)
		if recv.t == nil {
			w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		if hv, ok := recv.v.(hostObj); ok {
			name := c.Method.Name()
			args := make([]value, nargs)
			for i := range args {
				args[i] = w.get(fr, &ci.o[i+1])
			}
			return hostFn(func(w *Worker, a []value) value { return hv.invoke(w, name, a) }), args
		}
		m := w.p.method(recv.t, c.Method)
		if m == nil {
			w.unsupported("method " + c.Method.Name() + " of " + recv.t.String())
		}
		args := make([]value, nargs+1)
		args[0] = copyVal(recv.v)
		for i := 0; i < nargs; i++ {
			args[i+1] = w.get(fr, &ci.o[i+1])
		}
		return m, args
	}
	args := make([]value, nargs)
	for i := range args {
		args[i] = w.get(fr, &ci.o[i+1])
	}
	return w.get(fr, &ci.o[0]), args
}

type hostObj interface {
	invoke(w *Worker, method string, args []value) value
}
