package main

import (
	"fmt"
	"go/types"
	"math"
	"os"
	"path/filepath"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(w *Worker, fn *ssa.Function, a []value) value

var intrinsics = map[string]intrinsic{}

var repoDir = "/repo"

func (w *Worker) bytesOf(v value) []*Term {
	switch x := v.(type) {
	case Str:
		return w.strBytes(x)
	case sliceV:
		r := make([]*Term, len(x))
		for i, e := range x {
			t, ok := e.(*Term)
			if !ok {
				w.unsupported("contents of a formatted symbolic string inspected")
			}
			r[i] = t
		}
		return r
	}
	w.unsupported(fmt.Sprintf("bytes of %T", v))
	return nil
}

func (w *Worker) mkBytes(b []byte) sliceV {
	r := make(sliceV, len(b))
	for i := range b {
		r[i] = w.f.Const(8, uint64(b[i]))
	}
	return r
}

func (w *Worker) label(v value) string { return w.mustStr(v) }

func (w *Worker) errNew(msg Str) iface {
	pk := w.p.byName["errors"]
	t := pk.Type("errorString").Type()
	p := new(value)
	*p = structure{msg}
	return iface{t: types.NewPointer(t), v: p}
}

// ptrTo keeps pointer types canonical.
func (w *Worker) ptrTo(t types.Type) types.Type { return types.NewPointer(t) }

func (w *Worker) bytesEq(a, b []*Term) *Term {
	if len(a) != len(b) {
		return w.f.False
	}
	r := w.f.True
	for i := len(a) - 1; i >= 0; i-- {
		r = w.f.BAnd(w.f.Eq(a[i], b[i]), r)
	}
	return r
}

func (w *Worker) indexByte(b []*Term, c *Term) int {
	for i, t := range b {
		if w.branch(w.f.Eq(t, c)) {
			return i
		}
	}
	return -1
}

func symMod(n string) string { return modPath + "/zzverif/sym." + n }

func init() {
	reg := func(n string, f intrinsic) { intrinsics[n] = f }
	nop := func(w *Worker, fn *ssa.Function, a []value) value { return w.zeroResults(fn) }

	reg("unique.Make", func(w *Worker, fn *ssa.Function, a []value) value {
		t := fn.Signature.Params().At(0).Type()
		key := t.String()
		for _, p := range w.uniq[key] {
			e := w.eq(t, *p, a[0])
			if !e.isConst() {
				w.unsupported("unique.Make of a symbolic value")
			}
			if e == w.f.True {
				return structure{p}
			}
		}
		p := new(value)
		*p = a[0]
		if w.uniq == nil {
			w.uniq = map[string][]*value{}
		}
		w.uniq[key] = append(w.uniq[key], p)
		return structure{p}
	})
	reg("(unique.Handle[T]).Value", func(w *Worker, fn *ssa.Function, a []value) value {
		return *(a[0].(structure)[0].(*value))
	})

	// ---- harness interface -------------------------------------------------
	mkvar := func(wd uint8) intrinsic {
		return func(w *Worker, _ *ssa.Function, a []value) value {
			return w.newVar(w.label(a[0]), wd, 0, mask(wd))
		}
	}
	reg(symMod("U8"), mkvar(8))
	reg(symMod("U16"), mkvar(16))
	reg(symMod("U32"), mkvar(32))
	reg(symMod("U64"), mkvar(64))
	reg(symMod("I64"), mkvar(64))
	reg(symMod("Int"), mkvar(64))
	reg(symMod("Bool"), func(w *Worker, _ *ssa.Function, a []value) value {
		t := w.newVar(w.label(a[0]), 1, 0, 1)
		return w.f.Eq(t, w.f.Const(1, 1))
	})
	reg(symMod("Range"), func(w *Worker, _ *ssa.Function, a []value) value {
		lo, hi := a[1].(*Term), a[2].(*Term)
		return w.newVar(w.label(a[0]), 64, lo.val, hi.val)
	})
	reg(symMod("Bytes"), func(w *Worker, _ *ssa.Function, a []value) value {
		n := int(w.mustInt(a[1]))
		name := w.label(a[0])
		r := make(sliceV, n)
		for i := range r {
			r[i] = w.newVar(fmt.Sprintf("%s[%d]", name, i), 8, 0, 255)
		}
		return r
	})
	reg(symMod("String"), func(w *Worker, _ *ssa.Function, a []value) value {
		n := int(w.mustInt(a[1]))
		name := w.label(a[0])
		r := make([]*Term, n)
		for i := range r {
			r[i] = w.newVar(fmt.Sprintf("%s[%d]", name, i), 8, 0, 255)
		}
		if n == 0 {
			return Str{}
		}
		return Str{b: r}
	})
	reg(symMod("Choose"), func(w *Worker, _ *ssa.Function, a []value) value {
		n := int(w.mustInt(a[1]))
		if n <= 1 {
			return w.intv(0)
		}
		t := w.newVar(w.label(a[0]), 64, 0, uint64(n-1))
		return w.intv(int(w.concretize(t)))
	})
	reg(symMod("Assume"), func(w *Worker, _ *ssa.Function, a []value) value { w.assume(a[0].(*Term)); return nil })
	reg(symMod("Assert"), func(w *Worker, _ *ssa.Function, a []value) value {
		w.assert(a[0].(*Term), w.label(a[1]))
		return nil
	})
	reg(symMod("Fail"), func(w *Worker, _ *ssa.Function, a []value) value {
		w.assert(w.f.False, w.label(a[0]))
		return nil
	})
	reg(symMod("Cover"), func(w *Worker, _ *ssa.Function, a []value) value {
		l := w.label(a[0])
		w.j.mu.Lock()
		w.j.covers[l]++
		w.j.mu.Unlock()
		return nil
	})
	reg(symMod("Bound"), func(w *Worker, _ *ssa.Function, a []value) value {
		l := w.label(a[0])
		w.j.mu.Lock()
		w.j.notes[l] = true
		w.j.mu.Unlock()
		return nil
	})
	reg(symMod("Thorough"), func(w *Worker, _ *ssa.Function, a []value) value {
		return w.f.Bool(w.j != nil && w.j.tier == "thorough")
	})
	reg(symMod("Engine"), func(w *Worker, _ *ssa.Function, a []value) value { return w.f.True })
	reg(symMod("AllowExit"), func(w *Worker, _ *ssa.Function, a []value) value {
		w.allowExit = w.branch(a[0].(*Term))
		return nil
	})
	reg(symMod("Preempt"), func(w *Worker, _ *ssa.Function, a []value) value {
		w.preemptLeft = int(w.mustInt(a[0]))
		w.preempt = w.preemptLeft > 0
		w.schedExplore = w.preempt
		return nil
	})
	reg(symMod("Steps"), func(w *Worker, _ *ssa.Function, a []value) value {
		w.maxSteps = int(w.mustInt(a[0]))
		return nil
	})
	reg(symMod("MapOrder"), func(w *Worker, _ *ssa.Function, a []value) value {
		w.mapOrder = w.branch(a[0].(*Term))
		return nil
	})
	reg(symMod("Real"), func(w *Worker, _ *ssa.Function, a []value) value {
		if w.real == nil {
			w.real = map[string]bool{}
		}
		w.real[w.mustStr(a[0])] = true
		return nil
	})
	reg(symMod("WaitIdle"), func(w *Worker, _ *ssa.Function, a []value) value { w.waitIdle(); return nil })
	reg(symMod("RepoFile"), func(w *Worker, _ *ssa.Function, a []value) value {
		b, err := os.ReadFile(filepath.Join(repoDir, w.mustStr(a[0])))
		if err != nil {
			w.unsupported("repository file: " + err.Error())
		}
		return w.mkBytes(b)
	})
	reg(symMod("And"), func(w *Worker, _ *ssa.Function, a []value) value {
		r := w.f.True
		for _, x := range a[0].(sliceV) {
			r = w.f.BAnd(r, x.(*Term))
		}
		return r
	})
	reg(symMod("Or"), func(w *Worker, _ *ssa.Function, a []value) value {
		r := w.f.False
		for _, x := range a[0].(sliceV) {
			r = w.f.BOr(r, x.(*Term))
		}
		return r
	})
	reg(symMod("Not"), func(w *Worker, _ *ssa.Function, a []value) value { return w.f.BNot(a[0].(*Term)) })
	reg(symMod("Implies"), func(w *Worker, _ *ssa.Function, a []value) value {
		return w.f.BOr(w.f.BNot(a[0].(*Term)), a[1].(*Term))
	})
	ifte := func(w *Worker, _ *ssa.Function, a []value) value {
		return w.f.Ite(a[0].(*Term), a[1].(*Term), a[2].(*Term))
	}
	reg(symMod("IfU64"), ifte)
	reg(symMod("IfInt"), ifte)
	reg(symMod("EqBytes"), func(w *Worker, _ *ssa.Function, a []value) value {
		return w.bytesEq(w.bytesOf(a[0]), w.bytesOf(a[1]))
	})
	reg(symMod("EqStr"), func(w *Worker, _ *ssa.Function, a []value) value { return w.strEq(a[0].(Str), a[1].(Str)) })
	// Concrete forces one value per path.
	reg(symMod("Concrete"), func(w *Worker, _ *ssa.Function, a []value) value {
		t := a[0].(*Term)
		return w.f.Const(t.w, w.concretize(t))
	})
	// Try runs f and reports a panic's text ("" when none).
	reg(symMod("IsConcrete"), func(w *Worker, _ *ssa.Function, a []value) value {
		s, ok := a[0].(Str)
		return w.f.Bool(ok && !s.opaque && s.b == nil)
	})
	reg(symMod("IsConst"), func(w *Worker, _ *ssa.Function, a []value) value {
		t, ok := a[0].(*Term)
		return w.f.Bool(ok && t.isConst())
	})
	reg(symMod("IsOpaque"), func(w *Worker, _ *ssa.Function, a []value) value {
		s, ok := a[0].(Str)
		return w.f.Bool(ok && s.opaque)
	})

	// ---- process -------------------------------------------------------------
	exit := func(w *Worker, fn *ssa.Function, a []value) value {
		msg := fn.Name()
		if len(a) > 0 {
			if s, ok := a[0].(sliceV); ok {
				for _, x := range s {
					if i, ok := x.(iface); ok {
						if st, ok := i.v.(Str); ok && st.b == nil {
							msg += " " + st.s
						}
					}
				}
			}
		}
		w.exiting(1)
		panic(exitPath{1, "log." + msg + w.whereStr()})
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		reg("log."+n, exit)
		reg("(*log.Logger)."+n, exit)
	}
	reg(symMod("OnExit"), func(w *Worker, _ *ssa.Function, a []value) value {
		w.onExit = a[0]
		return nil
	})
	reg("os.Exit", func(w *Worker, _ *ssa.Function, a []value) value {
		if w.onExit != nil {
			w.exiting(int(sx(w.concretize(a[0].(*Term)), 64)))
		}
		panic(exitPath{1, "os.Exit" + w.whereStr()})
	})
	lpanic := func(w *Worker, fn *ssa.Function, a []value) value {
		w.goPanicStr("log." + fn.Name())
		return nil
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln"} {
		reg("log."+n, lpanic)
	}
	for _, n := range []string{"Print", "Printf", "Println", "SetOutput", "SetFlags", "SetPrefix", "Output"} {
		reg("log."+n, nop)
	}
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.FreeOSMemory",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/msan.Read", "internal/asan.Read",
		"(*strings.Builder).copyCheck", "runtime.LockOSThread", "runtime.UnlockOSThread", "time.initLocal",
		"(*internal/godebug.Setting).IncNonDefault", "internal/godebug.New", "runtime/debug.PrintStack",
		"internal/runtime/atomic.PrefetchAcquire", "os/signal.Notify", "os/signal.Stop", "crypto.RegisterHash",
		"crypto/internal/boring.Unreachable", "crypto/internal/boring.UnreachableExceptTests", "crypto/internal/fips140only.Enforced",
		"crypto/internal/fips140.RecordApproved", "crypto/internal/fips140.RecordNonApproved", "crypto/internal/boring/sig.StandardCrypto"} {
		reg(n, nop)
	}
	reg("(*internal/godebug.Setting).Value", func(w *Worker, _ *ssa.Function, a []value) value { return Str{} })
	reg("(*internal/godebug.Setting).Name", func(w *Worker, _ *ssa.Function, a []value) value { return Str{} })
	reg("internal/godebug.New", func(w *Worker, fn *ssa.Function, a []value) value {
		p := new(value)
		*p = w.zero(fn.Signature.Results().At(0).Type().(*types.Pointer).Elem())
		return p
	})
	reg("internal/abi.NoEscape", func(w *Worker, _ *ssa.Function, a []value) value { return a[0] })
	reg("internal/abi.Escape", func(w *Worker, _ *ssa.Function, a []value) value { return a[0] })
	reg("runtime.NumGoroutine", func(w *Worker, _ *ssa.Function, a []value) value { return w.intv(len(w.gs)) })
	reg("runtime.NumCPU", func(w *Worker, _ *ssa.Function, a []value) value { return w.intv(4) })
	reg("runtime.GOMAXPROCS", func(w *Worker, _ *ssa.Function, a []value) value { return w.intv(4) })
	reg("runtime/debug.Stack", func(w *Worker, _ *ssa.Function, a []value) value { return sliceV(nil) })

	// ---- bytealg -------------------------------------------------------------
	idxByte := func(w *Worker, _ *ssa.Function, a []value) value {
		return w.intv(w.indexByte(w.bytesOf(a[0]), a[1].(*Term)))
	}
	reg("internal/bytealg.IndexByte", idxByte)
	reg("internal/bytealg.IndexByteString", idxByte)
	lastIdx := func(w *Worker, _ *ssa.Function, a []value) value {
		b := w.bytesOf(a[0])
		for i := len(b) - 1; i >= 0; i-- {
			if w.branch(w.f.Eq(b[i], a[1].(*Term))) {
				return w.intv(i)
			}
		}
		return w.intv(-1)
	}
	reg("internal/bytealg.LastIndexByte", lastIdx)
	reg("internal/bytealg.LastIndexByteString", lastIdx)
	cnt := func(w *Worker, _ *ssa.Function, a []value) value {
		n := 0
		for _, t := range w.bytesOf(a[0]) {
			if w.branch(w.f.Eq(t, a[1].(*Term))) {
				n++
			}
		}
		return w.intv(n)
	}
	reg("internal/bytealg.Count", cnt)
	reg("internal/bytealg.CountString", cnt)
	reg("internal/bytealg.Equal", func(w *Worker, _ *ssa.Function, a []value) value {
		return w.bytesEq(w.bytesOf(a[0]), w.bytesOf(a[1]))
	})
	reg("bytes.Equal", func(w *Worker, _ *ssa.Function, a []value) value {
		return w.bytesEq(w.bytesOf(a[0]), w.bytesOf(a[1]))
	})
	cmp := func(w *Worker, _ *ssa.Function, a []value) value {
		x, y := w.bytesOf(a[0]), w.bytesOf(a[1])
		if w.branch(w.bytesEq(x, y)) {
			return w.intv(0)
		}
		if w.branch(w.strLt(Str{b: x, s: ""}, Str{b: y})) {
			return w.intv(-1)
		}
		return w.intv(1)
	}
	reg("internal/bytealg.Compare", func(w *Worker, fn *ssa.Function, a []value) value {
		return cmp(w, fn, a)
	})
	reg("internal/bytealg.CompareString", cmp)
	reg("bytes.Compare", cmp)
	reg("strings.Compare", cmp)
	reg("internal/bytealg.MakeNoZero", func(w *Worker, _ *ssa.Function, a []value) value {
		return w.makeSlice(types.Typ[types.Uint8], int(w.mustInt(a[0])), int(w.mustInt(a[0])))
	})
	index := func(w *Worker, _ *ssa.Function, a []value) value {
		h, n := w.bytesOf(a[0]), w.bytesOf(a[1])
		for i := 0; i+len(n) <= len(h); i++ {
			if w.branch(w.bytesEq(h[i:i+len(n)], n)) {
				return w.intv(i)
			}
		}
		return w.intv(-1)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "bytes.Index",
		"internal/stringslite.Index"} {
		reg(n, index)
	}
	// Whether, not where: one term rather than a path for each position.
	contains := func(w *Worker, _ *ssa.Function, a []value) value {
		if x, ok := a[0].(Str); ok && !x.opaque && x.b == nil {
			if y, ok := a[1].(Str); ok && !y.opaque && y.b == nil {
				return w.f.Bool(strings.Contains(x.s, y.s))
			}
		}
		b, sub := w.bytesOf(a[0]), w.bytesOf(a[1])
		r := w.f.Bool(false)
		for i := 0; i+len(sub) <= len(b); i++ {
			r = w.f.BOr(r, w.bytesEq(b[i:i+len(sub)], sub))
		}
		return r
	}
	reg("strings.Contains", contains)
	reg("bytes.Contains", contains)
	reg("strings.Clone", func(w *Worker, _ *ssa.Function, a []value) value { return a[0] })
	reg("internal/stringslite.Clone", func(w *Worker, _ *ssa.Function, a []value) value { return a[0] })

	// ---- maths ---------------------------------------------------------------
	reg("math.Float64bits", func(w *Worker, _ *ssa.Function, a []value) value {
		if x, ok := a[0].(float64); ok {
			return w.f.Const(64, math.Float64bits(x))
		}
		w.unsupported("bits of symbolic float")
		return nil
	})
	reg("math.Float64frombits", func(w *Worker, _ *ssa.Function, a []value) value {
		return math.Float64frombits(uint64(w.concretize(a[0].(*Term))))
	})
	reg("math.Float32bits", func(w *Worker, _ *ssa.Function, a []value) value {
		return w.f.Const(32, uint64(math.Float32bits(float32(a[0].(float64)))))
	})
	reg("math.Float32frombits", func(w *Worker, _ *ssa.Function, a []value) value {
		return float64(math.Float32frombits(uint32(w.concretize(a[0].(*Term)))))
	})
	one := func(f func(float64) float64) intrinsic {
		return func(w *Worker, _ *ssa.Function, a []value) value {
			switch x := a[0].(type) {
			case float64:
				return f(x)
			case symFloat:
				return x // integral
			}
			w.unsupported("float argument")
			return nil
		}
	}
	reg("math.Floor", one(math.Floor))
	reg("math.Ceil", one(math.Ceil))
	reg("math.Trunc", one(math.Trunc))
	reg("math.Round", one(math.Round))
	reg("math.sqrt", one(math.Sqrt))
	reg("math/bits.Len64", nil)
	delete(intrinsics, "math/bits.Len64")

	// ---- atomics -------------------------------------------------------------
	for _, pk := range []string{"sync/atomic.", "internal/runtime/atomic."} {
		for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer", "", "64", "8", "uintptr", "p", "int32", "int64", "Bool"} {
			reg(pk+"Load"+ty, func(w *Worker, _ *ssa.Function, a []value) value {
				w.yieldPoint("atomic")
				w.raceAtomic(a[0])
				return w.load(w.ptr(a[0]))
			})
			reg(pk+"LoadAcq"+ty, func(w *Worker, _ *ssa.Function, a []value) value { return w.load(w.ptr(a[0])) })
			reg(pk+"Store"+ty, func(w *Worker, _ *ssa.Function, a []value) value {
				w.yieldPoint("atomic")
				w.raceAtomic(a[0])
				w.store(w.ptr(a[0]), a[1])
				return nil
			})
			reg(pk+"Add"+ty, func(w *Worker, _ *ssa.Function, a []value) value {
				w.yieldPoint("atomic")
				w.raceAtomic(a[0])
				p := w.ptr(a[0])
				v := w.f.Bin(OAdd, w.load(p).(*Term), a[1].(*Term))
				w.store(p, v)
				return v
			})
			reg(pk+"Swap"+ty, func(w *Worker, _ *ssa.Function, a []value) value {
				w.yieldPoint("atomic")
				w.raceAtomic(a[0])
				p := w.ptr(a[0])
				v := w.load(p)
				w.store(p, a[1])
				return v
			})
			reg(pk+"CompareAndSwap"+ty, func(w *Worker, fn *ssa.Function, a []value) value {
				w.yieldPoint("atomic")
				w.raceAtomic(a[0])
				p := w.ptr(a[0])
				if w.branch(w.eq(fn.Signature.Params().At(1).Type(), w.load(p), a[1])) {
					w.store(p, a[2])
					return w.f.True
				}
				return w.f.False
			})
			reg(pk+"And"+ty, func(w *Worker, _ *ssa.Function, a []value) value {
				p := w.ptr(a[0])
				v := w.load(p)
				w.store(p, w.f.Bin(OAnd, v.(*Term), a[1].(*Term)))
				return v
			})
			reg(pk+"Or"+ty, func(w *Worker, _ *ssa.Function, a []value) value {
				p := w.ptr(a[0])
				v := w.load(p)
				w.store(p, w.f.Bin(OOr, v.(*Term), a[1].(*Term)))
				return v
			})
		}
	}
	// atomic.Pointer[T] / atomic.Value keep their contents in the first word-like field
	atomicField := func(w *Worker, v value) *value {
		w.raceAtomic(v)
		p := w.ptr(v)
		if p == nil {
			w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		s := (*p).(structure)
		return &s[len(s)-1]
	}
	reg("(*sync/atomic.Pointer).Load", func(w *Worker, _ *ssa.Function, a []value) value {
		v := w.load(atomicField(w, a[0]))
		return v
	})
	reg("(*sync/atomic.Pointer).Store", func(w *Worker, _ *ssa.Function, a []value) value {
		w.store(atomicField(w, a[0]), a[1])
		return nil
	})
	reg("(*sync/atomic.Pointer).Swap", func(w *Worker, _ *ssa.Function, a []value) value {
		p := atomicField(w, a[0])
		v := w.load(p)
		w.store(p, a[1])
		return v
	})
	reg("(*sync/atomic.Pointer).CompareAndSwap", func(w *Worker, _ *ssa.Function, a []value) value {
		p := atomicField(w, a[0])
		if w.load(p) == a[1] {
			w.store(p, a[2])
			return w.f.True
		}
		return w.f.False
	})
	reg("(*sync/atomic.Value).Load", func(w *Worker, _ *ssa.Function, a []value) value {
		return w.load(atomicField(w, a[0]))
	})
	reg("(*sync/atomic.Value).Store", func(w *Worker, _ *ssa.Function, a []value) value {
		w.store(atomicField(w, a[0]), a[1])
		return nil
	})

	// ---- time ------------------------------------------------------------------
	for _, n := range []string{"DecodeRune", "DecodeRuneInString"} {
		reg("unicode/utf8."+n, func(w *Worker, _ *ssa.Function, a []value) value {
			bs := w.bytesOf(a[0])
			if len(bs) == 0 {
				return tuple{w.f.Const(32, utf8.RuneError), w.intv(0)}
			}
			r, n := w.decodeRune(bs[:min(4, len(bs))])
			return tuple{r, w.intv(n)}
		})
	}
	reg("time.Now", func(w *Worker, fn *ssa.Function, a []value) value {
		if w.clock > 0 { // a clock that has been set, and goes on by a millisecond every time it is read
			w.clock++
			u := w.p.byName["time"].Func("Unix")
			return w.callFn(u, []value{w.intv(w.clock / 1000), w.intv(w.clock % 1000 * 1000000)}, nil, 0)
		}
		sec := w.newVar("time.now.sec", 64, 946684800, 4294967295)
		ns := w.newVar("time.now.ns", 64, 0, 999999999)
		u := w.p.byName["time"].Func("Unix")
		return w.callFn(u, []value{sec, ns}, nil, 0)
	})
	reg("time.runtimeNano", func(w *Worker, _ *ssa.Function, a []value) value { return w.intv(1) })
	reg("time.runtimeNow", func(w *Worker, _ *ssa.Function, a []value) value {
		return tuple{w.f.Const(64, 1700000000), w.f.Const(32, 0), w.f.Const(64, 1)}
	})
	reg("time.Since", func(w *Worker, _ *ssa.Function, a []value) value {
		return w.newVar("time.since", 64, 0, 1<<40)
	})
	symTimeText := func(orig string) {
		reg(orig, func(w *Worker, fn *ssa.Function, a []value) value {
			st, ok := a[0].(structure)
			if ok {
				for _, f := range st[:2] {
					if t, ok := f.(*Term); ok && !t.isConst() {
						return Str{opaque: true}
					}
				}
			}
			cf := &cfunc{fn: fn}
			_ = cf
			return w.rawCall(fn, a)
		})
	}
	symTimeText("(time.Time).String")
	symTimeText("(time.Time).Format")

	// ---- reflection (the small part that is used) ------------------------------
	regReflect(reg)
	regFmt(reg)
}

// rawCall interprets fn's own body even though an intrinsic is registered for it.
func (w *Worker) rawCall(fn *ssa.Function, a []value) value {
	cf := w.p.rawFn(fn)
	fr := &frame{cf: cf, regs: make([]value, cf.nregs), caller: w.cur, prev: -1}
	if w.cur != nil {
		fr.depth = w.cur.depth + 1
	}
	copy(fr.regs, a)
	saved := w.cur
	w.cur = fr
	if !cf.hasDefer {
		w.run(fr)
	} else {
		for !fr.done {
			w.runProtected(fr)
		}
	}
	w.cur = saved
	return fr.result
}

// ---- reflect ----------------------------------------------------------------------

type rval struct {
	t types.Type
	v value
	p *value // addressable location
}

type rtype struct{ t types.Type }

func (r rtype) invoke(w *Worker, method string, a []value) value {
	switch method {
	case "String":
		return Str{s: types.TypeString(r.t, func(p *types.Package) string { return p.Name() })}
	case "Name":
		if n, ok := r.t.(*types.Named); ok {
			return Str{s: n.Obj().Name()}
		}
		return Str{}
	case "Kind":
		return w.f.Const(64, uint64(kindOf(r.t)))
	case "Elem":
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			return w.rtypeIface(u.Elem())
		case *types.Slice:
			return w.rtypeIface(u.Elem())
		}
	case "NumField":
		if s, ok := r.t.Underlying().(*types.Struct); ok {
			return w.intv(s.NumFields())
		}
	}
	w.unsupported("reflect.Type." + method)
	return nil
}

func (w *Worker) rtypeIface(t types.Type) iface {
	return iface{t: types.Typ[types.UnsafePointer], v: rtype{t}}
}

func kindOf(t types.Type) int {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		m := map[types.BasicKind]int{types.Bool: 1, types.Int: 2, types.Int8: 3, types.Int16: 4, types.Int32: 5, types.Int64: 6,
			types.Uint: 7, types.Uint8: 8, types.Uint16: 9, types.Uint32: 10, types.Uint64: 11, types.Uintptr: 12,
			types.Float32: 13, types.Float64: 14, types.Complex64: 15, types.Complex128: 16, types.String: 24, types.UnsafePointer: 26}
		return m[u.Kind()]
	case *types.Array:
		return 17
	case *types.Chan:
		return 18
	case *types.Signature:
		return 19
	case *types.Interface:
		return 20
	case *types.Map:
		return 21
	case *types.Pointer:
		return 22
	case *types.Slice:
		return 23
	case *types.Struct:
		return 25
	}
	return 0
}

var kindNames = []string{"invalid", "bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64", "uintptr",
	"float32", "float64", "complex64", "complex128", "array", "chan", "func", "interface", "map", "ptr", "slice", "string", "struct", "unsafe.Pointer"}

func regReflect(reg func(string, intrinsic)) {
	rv := func(w *Worker, v value) rval {
		if r, ok := v.(rval); ok {
			return r
		}
		return rval{}
	}
	valueErr := func(w *Worker, m string, r rval) {
		k := 0
		if r.t != nil {
			k = kindOf(r.t)
		}
		w.goPanicStr("reflect: call of reflect.Value." + m + " on " + kindNames[k] + " Value")
	}
	cur := func(w *Worker, r rval) value {
		if r.p != nil {
			return w.load(r.p)
		}
		return r.v
	}
	valueOf := func(w *Worker, _ *ssa.Function, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return rval{}
		}
		return rval{t: i.t, v: i.v}
	}
	reg("reflect.ValueOf", valueOf)
	reg("internal/reflectlite.ValueOf", valueOf)
	typeOf := func(w *Worker, _ *ssa.Function, a []value) value {
		i := a[0].(iface)
		if i.t == nil {
			return iface{}
		}
		return w.rtypeIface(i.t)
	}
	reg("reflect.TypeOf", typeOf)
	reg("internal/reflectlite.TypeOf", typeOf)
	reg("reflect.Indirect", func(w *Worker, _ *ssa.Function, a []value) value {
		r := rv(w, a[0])
		if r.t != nil {
			if pt, ok := r.t.Underlying().(*types.Pointer); ok {
				p, _ := cur(w, r).(*value)
				if p == nil {
					return rval{}
				}
				return rval{t: pt.Elem(), p: p}
			}
		}
		return r
	})
	m := func(n string, f func(w *Worker, r rval, a []value) value) {
		in := func(w *Worker, _ *ssa.Function, a []value) value { return f(w, rv(w, a[0]), a[1:]) }
		reg("(reflect.Value)."+n, in)
		reg("(internal/reflectlite.Value)."+n, in)
	}
	m("Kind", func(w *Worker, r rval, a []value) value {
		if r.t == nil {
			return w.f.Const(64, 0)
		}
		return w.f.Const(64, uint64(kindOf(r.t)))
	})
	m("Type", func(w *Worker, r rval, a []value) value {
		if r.t == nil {
			valueErr(w, "Type", r)
		}
		return w.rtypeIface(r.t)
	})
	m("IsValid", func(w *Worker, r rval, a []value) value { return w.f.Bool(r.t != nil) })
	m("CanInterface", func(w *Worker, r rval, a []value) value { return w.f.True })
	m("Elem", func(w *Worker, r rval, a []value) value {
		if r.t == nil {
			valueErr(w, "Elem", r)
		}
		switch u := r.t.Underlying().(type) {
		case *types.Pointer:
			p, _ := cur(w, r).(*value)
			if p == nil {
				return rval{}
			}
			return rval{t: u.Elem(), p: p}
		case *types.Interface:
			i := cur(w, r).(iface)
			if i.t == nil {
				return rval{}
			}
			return rval{t: i.t, v: i.v}
		}
		valueErr(w, "Elem", r)
		return nil
	})
	field := func(w *Worker, r rval, k int) value {
		st := r.t.Underlying().(*types.Struct)
		if r.p != nil {
			s := (*r.p).(structure)
			return rval{t: st.Field(k).Type(), p: &s[k]}
		}
		return rval{t: st.Field(k).Type(), v: copyVal(r.v.(structure)[k])}
	}
	m("FieldByName", func(w *Worker, r rval, a []value) value {
		name := w.mustStr(a[0])
		if r.t == nil {
			valueErr(w, "FieldByName", r)
		}
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			valueErr(w, "FieldByName", r)
		}
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == name {
				return field(w, r, k)
			}
		}
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Embedded() {
				w.unsupported("reflect field of embedded struct")
			}
		}
		return rval{}
	})
	m("Field", func(w *Worker, r rval, a []value) value {
		if r.t == nil {
			valueErr(w, "Field", r)
		}
		if _, ok := r.t.Underlying().(*types.Struct); !ok {
			valueErr(w, "Field", r)
		}
		return field(w, r, int(w.mustInt(a[0])))
	})
	m("NumField", func(w *Worker, r rval, a []value) value {
		st, ok := r.t.Underlying().(*types.Struct)
		if !ok {
			valueErr(w, "NumField", r)
		}
		return w.intv(st.NumFields())
	})
	m("Uint", func(w *Worker, r rval, a []value) value {
		if r.t != nil {
			if k := kindOf(r.t); k >= 7 && k <= 12 {
				return w.f.ZExt(cur(w, r).(*Term), 64)
			}
		}
		valueErr(w, "Uint", r)
		return nil
	})
	m("Int", func(w *Worker, r rval, a []value) value {
		if r.t != nil {
			if k := kindOf(r.t); k >= 2 && k <= 6 {
				return w.f.SExt(cur(w, r).(*Term), 64)
			}
		}
		valueErr(w, "Int", r)
		return nil
	})
	m("Bool", func(w *Worker, r rval, a []value) value {
		if r.t == nil || kindOf(r.t) != 1 {
			valueErr(w, "Bool", r)
		}
		return cur(w, r)
	})
	m("Float", func(w *Worker, r rval, a []value) value {
		if r.t == nil || (kindOf(r.t) != 14 && kindOf(r.t) != 13) {
			valueErr(w, "Float", r)
		}
		return cur(w, r)
	})
	m("String", func(w *Worker, r rval, a []value) value {
		if r.t == nil {
			return Str{s: "<invalid Value>"}
		}
		if kindOf(r.t) == 24 {
			return cur(w, r)
		}
		return Str{s: "<" + types.TypeString(r.t, func(p *types.Package) string { return p.Name() }) + " Value>"}
	})
	m("Len", func(w *Worker, r rval, a []value) value {
		if r.t != nil {
			switch x := cur(w, r).(type) {
			case Str:
				return w.intv(x.length())
			case sliceV:
				return w.intv(len(x))
			case array:
				return w.intv(len(x))
			case *mapV:
				if x == nil {
					return w.intv(0)
				}
				return w.intv(x.live)
			}
		}
		valueErr(w, "Len", r)
		return nil
	})
	m("IsNil", func(w *Worker, r rval, a []value) value {
		switch x := cur(w, r).(type) {
		case sliceV:
			return w.f.Bool(x == nil)
		case *value:
			return w.f.Bool(x == nil)
		case *mapV:
			return w.f.Bool(x == nil)
		case iface:
			return w.f.Bool(x.t == nil)
		case *chanV:
			return w.f.Bool(x == nil)
		}
		valueErr(w, "IsNil", r)
		return nil
	})
	m("Bytes", func(w *Worker, r rval, a []value) value {
		if r.t != nil {
			if x, ok := cur(w, r).(sliceV); ok {
				if ew, _, _ := intType(r.t.Underlying().(*types.Slice).Elem()); ew == 8 {
					return x
				}
			}
		}
		valueErr(w, "Bytes", r)
		return nil
	})
	m("Index", func(w *Worker, r rval, a []value) value {
		i := a[0].(*Term)
		if r.t != nil {
			switch u := r.t.Underlying().(type) {
			case *types.Slice:
				x := cur(w, r).(sliceV)
				return rval{t: u.Elem(), p: &x[w.index(i, true, len(x))]}
			case *types.Array:
				if r.p != nil {
					x := (*r.p).(array)
					return rval{t: u.Elem(), p: &x[w.index(i, true, len(x))]}
				}
				x := r.v.(array)
				return rval{t: u.Elem(), v: x[w.index(i, true, len(x))]}
			case *types.Basic:
				if s, ok := cur(w, r).(Str); ok {
					return rval{t: types.Typ[types.Uint8], v: w.indexStr(s, i, true)}
				}
			}
		}
		valueErr(w, "Index", r)
		return nil
	})
	m("Interface", func(w *Worker, r rval, a []value) value {
		if r.t == nil {
			valueErr(w, "Interface", r)
		}
		v := cur(w, r)
		if i, ok := v.(iface); ok && kindOf(r.t) == 20 {
			return i
		}
		return iface{t: r.t, v: v}
	})
	m("IsZero", func(w *Worker, r rval, a []value) value {
		if r.t == nil {
			valueErr(w, "IsZero", r)
		}
		switch x := cur(w, r).(type) {
		case sliceV:
			return w.f.Bool(x == nil)
		default:
			return w.eq(r.t, x, w.zero(r.t))
		}
	})
	set := func(w *Worker, r rval, v value) value {
		if r.p == nil {
			w.goPanicStr("reflect: reflect.Value.Set using unaddressable value")
		}
		w.store(r.p, v)
		return nil
	}
	m("SetUint", func(w *Worker, r rval, a []value) value {
		wd, _, _ := intType(r.t)
		return set(w, r, w.f.Conv(a[0].(*Term), wd, false))
	})
	m("SetInt", func(w *Worker, r rval, a []value) value {
		wd, _, _ := intType(r.t)
		return set(w, r, w.f.Conv(a[0].(*Term), wd, true))
	})
	m("SetString", func(w *Worker, r rval, a []value) value { return set(w, r, a[0]) })
	m("SetBool", func(w *Worker, r rval, a []value) value { return set(w, r, a[0]) })
	m("SetBytes", func(w *Worker, r rval, a []value) value { return set(w, r, a[0]) })
	m("Set", func(w *Worker, r rval, a []value) value { return set(w, r, cur(w, rv(w, a[0]))) })
	m("CanSet", func(w *Worker, r rval, a []value) value { return w.f.Bool(r.p != nil) })

	swapper := func(w *Worker, _ *ssa.Function, a []value) value {
		s := a[0].(iface).v.(sliceV)
		return hostFn(func(w *Worker, b []value) value {
			i, j := int(w.mustInt(b[0])), int(w.mustInt(b[1]))
			x, y := copyVal(s[i]), copyVal(s[j])
			w.store(&s[i], y)
			w.store(&s[j], x)
			return nil
		})
	}
	reg("internal/reflectlite.Swapper", swapper)
	reg("reflect.Swapper", swapper)
	reg("reflect.DeepEqual", func(w *Worker, _ *ssa.Function, a []value) value {
		x, y := a[0].(iface), a[1].(iface)
		if x.t == nil || y.t == nil {
			return w.f.Bool(x.t == nil && y.t == nil)
		}
		if !identical(x.t, y.t) {
			return w.f.False
		}
		return w.deepEq(x.t, x.v, y.v, 0)
	})
}

func (w *Worker) deepEq(t types.Type, a, b value, depth int) *Term {
	if depth > 20 {
		w.unsupported("deep comparison")
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		x, y := a.(sliceV), b.(sliceV)
		if (x == nil) != (y == nil) || len(x) != len(y) {
			return w.f.False
		}
		r := w.f.True
		for i := range x {
			r = w.f.BAnd(r, w.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Array:
		x, y := a.(array), b.(array)
		r := w.f.True
		for i := range x {
			r = w.f.BAnd(r, w.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Struct:
		x, y := a.(structure), b.(structure)
		r := w.f.True
		for i := range x {
			r = w.f.BAnd(r, w.deepEq(u.Field(i).Type(), x[i], y[i], depth+1))
		}
		return r
	case *types.Pointer:
		x, y := a.(*value), b.(*value)
		if x == y {
			return w.f.True
		}
		if x == nil || y == nil {
			return w.f.False
		}
		return w.deepEq(u.Elem(), *x, *y, depth+1)
	case *types.Interface:
		x, y := a.(iface), b.(iface)
		if x.t == nil || y.t == nil {
			return w.f.Bool(x.t == nil && y.t == nil)
		}
		if !identical(x.t, y.t) {
			return w.f.False
		}
		return w.deepEq(x.t, x.v, y.v, depth+1)
	case *types.Map:
		x, y := a.(*mapV), b.(*mapV)
		if x == y {
			return w.f.True
		}
		if x == nil || y == nil || x.live != y.live {
			return w.f.False
		}
		r := w.f.True
		for i := range x.keys {
			if x.dead[i] {
				continue
			}
			j := w.mapFind(y, u.Key(), x.keys[i])
			if j < 0 {
				return w.f.False
			}
			r = w.f.BAnd(r, w.deepEq(u.Elem(), *x.vals[i], *y.vals[j], depth+1))
		}
		return r
	}
	return w.eq(t, a, b)
}

// ---- fmt ------------------------------------------------------------------------------

func regFmt(reg func(string, intrinsic)) {
	sliceArgs := func(v value) []iface {
		s := v.(sliceV)
		r := make([]iface, len(s))
		for i := range s {
			r[i] = s[i].(iface)
		}
		return r
	}
	reg("fmt.Sprintf", func(w *Worker, _ *ssa.Function, a []value) value { return w.sprintf(w.mustStr(a[0]), sliceArgs(a[1])) })
	reg("fmt.Sprint", func(w *Worker, _ *ssa.Function, a []value) value { return w.sprint(sliceArgs(a[0]), false) })
	reg("fmt.Sprintln", func(w *Worker, _ *ssa.Function, a []value) value { return w.sprint(sliceArgs(a[0]), true) })
	reg("fmt.Errorf", func(w *Worker, fn *ssa.Function, a []value) value {
		f := w.mustStr(a[0])
		args := sliceArgs(a[1])
		msg := w.sprintf(strings.ReplaceAll(f, "%w", "%v"), args)
		if strings.Contains(f, "%w") {
			for _, x := range args {
				if x.t != nil && implementsError(x.t) {
					pk := w.p.byName["fmt"]
					p := new(value)
					*p = structure{msg, x}
					return iface{t: types.NewPointer(pk.Type("wrapError").Type()), v: p}
				}
			}
		}
		return w.errNew(msg)
	})
	out := func(ln bool, f bool, skip int) intrinsic {
		return func(w *Worker, _ *ssa.Function, a []value) value {
			if f {
				w.sprintf(w.mustStr(a[skip]), sliceArgs(a[skip+1]))
			} else {
				w.sprint(sliceArgs(a[skip]), ln)
			}
			return tuple{w.intv(0), iface{}}
		}
	}
	reg("fmt.Print", out(false, false, 0))
	reg("fmt.Println", out(true, false, 0))
	reg("fmt.Printf", out(false, true, 0))
	fout := func(ln, f bool) intrinsic {
		return func(w *Worker, _ *ssa.Function, a []value) value {
			var s Str
			if f {
				s = w.sprintf(w.mustStr(a[1]), sliceArgs(a[2]))
			} else {
				s = w.sprint(sliceArgs(a[1]), ln)
			}
			wr := a[0].(iface)
			if wr.t == nil {
				w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
			}
			buf := w.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), s)
			obj, _, _ := types.LookupFieldOrMethod(wr.t, true, nil, "Write")
			m, ok := obj.(*types.Func)
			if !ok {
				w.unsupported("Fprint to " + wr.t.String())
			}
			return w.callFn(w.p.method(wr.t, m), []value{wr.v, buf}, nil, 0)
		}
	}
	reg("fmt.Fprint", fout(false, false))
	reg("fmt.Fprintln", fout(true, false))
	reg("fmt.Fprintf", fout(false, true))
	appendf := func(ln, f bool) intrinsic {
		return func(w *Worker, _ *ssa.Function, a []value) value {
			var s Str
			if f {
				s = w.sprintf(w.mustStr(a[1]), sliceArgs(a[2]))
			} else {
				s = w.sprint(sliceArgs(a[1]), ln)
			}
			d := a[0].(sliceV)
			for _, b := range w.strBytes(s) {
				d = append(d[:len(d):len(d)], b)
			}
			return d
		}
	}
	reg("fmt.Append", appendf(false, false))
	reg("fmt.Appendln", appendf(true, false))
	reg("fmt.Appendf", appendf(false, true))
}

var errIface = types.Universe.Lookup("error").Type().Underlying().(*types.Interface)

func implementsError(t types.Type) bool { return types.Implements(t, errIface) }

// text renders one operand with %v; opaque when it depends on symbolic data.
func (w *Worker) text(x iface, verb string, depth int) Str {
	if x.t == nil {
		return Str{s: "<nil>"}
	}
	if hv, ok := x.v.(hostObj); ok {
		if v, ok := hv.invoke(w, "String", nil).(Str); ok {
			return v
		}
		return Str{opaque: true}
	}
	if verb == "v" || verb == "s" || verb == "q" || verb == "+v" {
		for _, mn := range []string{"Error", "String"} {
			obj, _, _ := types.LookupFieldOrMethod(x.t, false, nil, mn)
			m, ok := obj.(*types.Func)
			if !ok {
				continue
			}
			sg := m.Type().(*types.Signature)
			if sg.Params().Len() != 0 || sg.Results().Len() != 1 || !isString(sg.Results().At(0).Type()) {
				continue
			}
			return w.callText(x, m)
		}
	}
	switch v := x.v.(type) {
	case *Term:
		_, signed, isInt := intType(x.t)
		if !v.isConst() {
			if w.digits && isInt && (verb == "v" || verb == "d") {
				return w.decimal(v, signed)
			}
			return Str{opaque: true}
		}
		if v.w == 0 {
			return Str{s: fmt.Sprint(v.val == 1)}
		}
		var r any = v.val
		if signed {
			r = sx(v.val, v.w)
		}
		if verb == "v" || verb == "s" || verb == "+v" {
			return Str{s: fmt.Sprint(r)}
		}
		return Str{s: fmt.Sprintf("%"+verb, r)}
	case Str:
		if v.opaque {
			return v
		}
		if v.b != nil {
			if verb == "v" || verb == "s" || verb == "+v" {
				return v
			}
			return Str{opaque: true}
		}
		if verb == "v" || verb == "+v" {
			verb = "s"
		}
		return Str{s: fmt.Sprintf("%"+verb, v.s)}
	case float64:
		return Str{s: fmt.Sprintf("%"+verb, v)}
	case symFloat:
		return Str{opaque: true}
	case structure:
		// visit nested Stringers / errors the way fmt does, so that a crash there shows
		if depth < 6 {
			st := x.t.Underlying().(*types.Struct)
			for i, f := range v {
				if st.Field(i).Exported() {
					if in, ok := f.(iface); ok {
						w.text(in, verb, depth+1)
					} else {
						w.text(iface{st.Field(i).Type(), f}, verb, depth+1)
					}
				}
			}
		}
		return Str{opaque: true}
	case sliceV:
		sl, ok := x.t.Underlying().(*types.Slice)
		if ok && depth < 4 && len(v) <= 64 {
			if ew, _, isInt := intType(sl.Elem()); isInt && ew == 8 {
				if verb == "s" {
					return mkStrOrOpaque(v)
				}
				return Str{opaque: true}
			}
			r := Str{s: "["}
			for i, e := range v {
				if i > 0 {
					r = w.concat(r, Str{s: " "})
				}
				in, isI := e.(iface)
				if !isI {
					in = iface{sl.Elem(), e}
				}
				r = w.concat(r, w.text(in, verb, depth+1))
			}
			return w.concat(r, Str{s: "]"})
		}
		return Str{opaque: true}
	}
	return Str{opaque: true}
}

// exiting tells the harness that the process ends itself.
func (w *Worker) exiting(status int) {
	if f := w.onExit; f != nil {
		w.onExit = nil
		w.call(f, []value{w.intv(status)}, 0)
	}
}

// decimal: the digits of an integer (sym.Digits), a path for each number of them.
func (w *Worker) decimal(t *Term, signed bool) Str {
	f := w.f
	r := Str{}
	if signed && w.branch(f.Slt(t, f.Const(t.w, 0))) {
		r.s = "-"
		t = f.Bin(OSub, f.Const(t.w, 0), t)
	}
	t = f.Conv(t, 64, false)
	n, pow := 1, uint64(10)
	for !w.branch(f.Ult(t, f.Const(64, pow))) {
		n++
		if pow *= 10; n > 9 {
			return Str{opaque: true}
		}
	}
	nw := uint8(32)
	if n <= 4 {
		nw = 16
	}
	t = f.Conv(t, nw, false)
	b := make([]*Term, n)
	for i := n - 1; i >= 0; i-- {
		d := t
		if i > 0 {
			d = f.Bin(OURem, t, f.Const(nw, 10))
			t = f.Bin(OUDiv, t, f.Const(nw, 10))
		} else if n > 1 {
		}
		b[i] = f.Bin(OAdd, f.Const(8, '0'), f.Conv(f.Bin(OURem, d, f.Const(nw, 10)), 8, false))
	}
	return w.concat(r, mkStr(b))
}

func mkStrOrOpaque(v sliceV) Str {
	b := make([]*Term, len(v))
	for i := range v {
		t, ok := v[i].(*Term)
		if !ok {
			return Str{opaque: true}
		}
		b[i] = t
	}
	return mkStr(b)
}

// callText calls Error or String; like fmt it survives a panic in it.
func (w *Worker) callText(x iface, m *types.Func) (s Str) {
	saved := w.cur
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(goPanic); ok {
				w.cur = saved
				s = Str{opaque: true}
				return
			}
			panic(r)
		}
	}()
	f := w.p.method(x.t, m)
	if f == nil {
		return Str{opaque: true}
	}
	return w.callFn(f, []value{copyVal(x.v)}, nil, 0).(Str)
}

func (w *Worker) sprint(args []iface, ln bool) Str {
	r := Str{}
	for i, a := range args {
		if i > 0 {
			sp := ln
			if !ln {
				_, s1 := args[i-1].v.(Str)
				_, s2 := a.v.(Str)
				sp = !s1 && !s2
			}
			if sp {
				r = w.concat(r, Str{s: " "})
			}
		}
		r = w.concat(r, w.text(a, "v", 0))
	}
	if ln {
		r = w.concat(r, Str{s: "\n"})
	}
	return r
}

func (w *Worker) sprintf(f string, args []iface) Str {
	r := Str{}
	ai := 0
	for i := 0; i < len(f); {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			r = w.concat(r, Str{s: f[i:]})
			break
		}
		r = w.concat(r, Str{s: f[i : i+j]})
		i += j + 1
		st := i
		for i < len(f) && strings.IndexByte("+-# 0123456789.*[]", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			r = w.concat(r, Str{s: "%!(NOVERB)"})
			break
		}
		flags, verb := f[st:i], f[i]
		i++
		if verb == '%' {
			r = w.concat(r, Str{s: "%"})
			continue
		}
		if strings.ContainsAny(flags, "*[") {
			r = w.concat(r, Str{opaque: true})
			ai++
			continue
		}
		if ai >= len(args) {
			r = w.concat(r, Str{s: "%!" + string(verb) + "(MISSING)"})
			continue
		}
		a := args[ai]
		ai++
		switch verb {
		case 'T':
			if a.t == nil {
				r = w.concat(r, Str{s: "<nil>"})
			} else {
				r = w.concat(r, Str{s: types.TypeString(a.t, func(p *types.Package) string { return p.Name() })})
			}
		case 'p':
			r = w.concat(r, Str{opaque: true})
		default:
			t := w.text(a, flagVerb(flags, verb), 0)
			if !t.opaque && t.b == nil && flags != "" && strings.IndexByte("sv", verb) >= 0 {
				if wd := strings.Trim(flags, "+#"); wd != "" {
					if _, isStr := a.v.(Str); isStr || verb == 's' {
						t = Str{s: fmt.Sprintf("%"+wd+"s", t.s)}
					} else {
						t = Str{s: fmt.Sprintf("%"+wd+"s", t.s)}
					}
				}
			} else if t.b != nil && strings.Trim(flags, "+#") != "" {
				t = w.pad(t, strings.Trim(flags, "+#"))
			}
			r = w.concat(r, t)
		}
	}
	if ai < len(args) {
		r = w.concat(r, Str{s: "%!(EXTRA)"})
	}
	return r
}

// pad: a string of symbolic bytes in a column so wide.
func (w *Worker) pad(t Str, width string) Str {
	n := 0
	left := strings.HasPrefix(width, "-")
	if _, err := fmt.Sscanf(strings.TrimPrefix(width, "-")+" ", "%d ", &n); err != nil {
		return Str{opaque: true}
	}
	for _, b := range t.b {
		if !w.branch(w.f.Ult(b, w.f.Const(8, 0x80))) { // then the width is that of its characters
			return Str{opaque: true}
		}
	}
	sp := Str{s: strings.Repeat(" ", max(0, n-len(t.b)))}
	if left {
		return w.concat(t, sp)
	}
	return w.concat(sp, t)
}

func flagVerb(flags string, verb byte) string {
	if verb == 'v' || verb == 's' {
		return string(verb)
	}
	return flags + string(verb)
}
