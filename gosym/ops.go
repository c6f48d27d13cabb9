package main

import (
	"fmt"
	"go/types"
	"os"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func coreType(t types.Type) types.Type {
	u := t.Underlying()
	if i, ok := u.(*types.Interface); ok {
		// type parameter constraint: use the single underlying type when there is one
		_ = i
	}
	return u
}

func (w *Worker) convert(from, to types.Type, v value) value {
	fu, tu := coreType(from), coreType(to)
	if tb, ok := tu.(*types.Basic); ok {
		tw, _, tInt := basicWidth(tb.Kind())
		switch x := v.(type) {
		case *Term:
			if tInt && x.w != 0 {
				_, fs, _ := intType(from)
				return w.f.Conv(x, tw, fs)
			}
			if x.w == 0 && tInt && tw == 0 {
				return x
			}
			if fl, f32 := isFloat(to); fl {
				_, fs, _ := intType(from)
				if x.isConst() {
					var r float64
					if fs {
						r = float64(sx(x.val, x.w))
					} else {
						r = float64(x.val)
					}
					if f32 {
						r = float64(float32(r))
					}
					return r
				}
				lim := uint64(1) << 53
				if f32 {
					lim = 1 << 24
				}
				t := w.f.Conv(x, 64, fs)
				if t.uhi > lim {
					if !w.branch(w.f.Ule(w.f.Bin(OAdd, t, w.f.Const(64, lim)), w.f.Const(64, 2*lim))) {
						w.unsupported("integer beyond 2^53 converted to float")
					}
				}
				return symFloat{t}
			}
			if isString(to) {
				return w.runeToStr(x)
			}
			if tb.Kind() == types.UnsafePointer {
				w.unsupported("integer to unsafe.Pointer")
			}
		case float64:
			if tInt && tw != 0 {
				_, ts, _ := basicWidth(tb.Kind())
				if ts {
					return w.f.Const(tw, uint64(int64(x)))
				}
				return w.f.Const(tw, uint64(x))
			}
			if fl, f32 := isFloat(to); fl {
				if f32 {
					return float64(float32(x))
				}
				return x
			}
		case symFloat:
			if tInt && tw != 0 {
				return w.f.Conv(x.t, tw, true)
			}
			if fl, _ := isFloat(to); fl {
				return x
			}
		case complex128:
			return x
		case Str:
			if isString(to) {
				return x
			}
		case sliceV:
			if isString(to) {
				et := fu.(*types.Slice).Elem()
				if ew, _, _ := intType(et); ew == 8 {
					b := make([]*Term, len(x))
					for i, e := range x {
						t, ok := e.(*Term)
						if !ok {
							w.unsupported("bytes to string")
						}
						b[i] = t
					}
					return mkStr(b)
				}
				var r Str
				for _, e := range x {
					r = w.concat(r, w.runeToStr(e.(*Term)))
				}
				return r
			}
		case *value, dataPtr:
			if tb.Kind() == types.UnsafePointer {
				return v
			}
			if tInt && tw == 64 {
				if p, ok := v.(*value); ok && p == nil {
					return w.f.Const(64, 0)
				}
				w.unsupported("pointer to integer")
			}
		}
	}
	switch t := tu.(type) {
	case *types.Slice:
		switch x := v.(type) {
		case Str:
			x = w.fs(x)
			if x.opaque {
				return w.opaqueBytes(x)
			}
			if ew, _, _ := intType(t.Elem()); ew == 8 {
				b := w.strBytes(x)
				r := make(sliceV, len(b))
				for i := range b {
					r[i] = b[i]
				}
				return r
			}
			var r sliceV
			it := &iterV{str: &x}
			for {
				tp := w.nextStr(it)
				if tp[0].(*Term) == w.f.False {
					break
				}
				r = append(r, tp[2])
			}
			if r == nil {
				r = sliceV{}
			}
			return r
		case sliceV:
			return x
		}
	case *types.Pointer:
		switch v.(type) {
		case *value, dataPtr:
			return v
		}
	case *types.Basic:
	default:
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	w.unsupported(fmt.Sprintf("conversion %s -> %s", from, to))
	return nil
}

// opaqueByte marks bytes of a string whose contents are not tracked.
type opaqueBytesV struct{}

func (w *Worker) opaqueBytes(Str) value {
	return sliceV{opaqueBytesV{}}
}

func (w *Worker) runeToStr(x *Term) Str {
	if x.isConst() {
		v := sx(x.val, x.w)
		if x.w == 8 || x.w == 16 {
			v = int64(x.val)
		}
		if v < 0 || v > 0x10ffff {
			return Str{s: "\uFFFD"}
		}
		return Str{s: string(rune(v))}
	}
	t := x
	if t.w < 64 {
		t = w.f.ZExt(t, 64)
	}
	if w.branch(w.f.Ult(t, w.f.Const(64, 0x80))) {
		return mkStr([]*Term{w.f.Extract(t, 7, 0)})
	}
	if w.branch(w.f.Ult(t, w.f.Const(64, 0x800))) {
		hi := w.f.Bin(OOr, w.f.Const(8, 0xC0), w.f.Extract(w.f.Bin(OLShr, t, w.f.Const(64, 6)), 7, 0))
		lo := w.f.Bin(OOr, w.f.Const(8, 0x80), w.f.Bin(OAnd, w.f.Extract(t, 7, 0), w.f.Const(8, 0x3f)))
		return mkStr([]*Term{hi, lo})
	}
	v := w.concretize(t)
	if v > utf8.MaxRune {
		return Str{s: "\uFFFD"}
	}
	return Str{s: string(rune(v))}
}

func (w *Worker) builtin(name string, args []value, cc *ssa.CallCommon) value {
	if w.raceFrame() {
		w.raceBuiltin(name, args)
	}
	switch name {
	case "append":
		return w.doAppend(args, cc)
	case "copy":
		dst := args[0].(sliceV)
		switch src := args[1].(type) {
		case Str:
			b := w.strBytes(src)
			n := min(len(dst), len(b))
			for i := 0; i < n; i++ {
				w.store(&dst[i], b[i])
			}
			return w.intv(n)
		case sliceV:
			n := min(len(dst), len(src))
			tmp := make([]value, n)
			for i := range tmp {
				tmp[i] = copyVal(src[i])
			}
			for i := range tmp {
				w.store(&dst[i], tmp[i])
			}
			return w.intv(n)
		}
	case "len":
		switch x := args[0].(type) {
		case Str:
			x = w.fs(x)
			if x.opaque {
				w.unsupported("length of formatted symbolic string")
			}
			return w.intv(x.length())
		case sliceV:
			if len(x) == 1 {
				if _, ok := x[0].(opaqueBytesV); ok {
					w.unsupported("length of formatted symbolic string")
				}
			}
			return w.intv(len(x))
		case array:
			return w.intv(len(x))
		case *value:
			return w.intv(len((*x).(array)))
		case *mapV:
			if x == nil {
				return w.intv(0)
			}
			return w.intv(x.live)
		case *chanV:
			if x == nil {
				return w.intv(0)
			}
			return w.intv(len(x.buf))
		}
	case "cap":
		switch x := args[0].(type) {
		case sliceV:
			return w.intv(cap(x))
		case array:
			return w.intv(len(x))
		case *value:
			return w.intv(len((*x).(array)))
		case *chanV:
			if x == nil {
				return w.intv(0)
			}
			return w.intv(x.cap)
		}
	case "delete":
		m := args[0].(*mapV)
		if m == nil {
			return nil
		}
		w.mapDelete(m, cc.Args[0].Type().Underlying().(*types.Map).Key(), args[1])
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *mapV:
			if x != nil {
				kt := cc.Args[0].Type().Underlying().(*types.Map).Key()
				for i := range x.keys {
					if !x.dead[i] {
						w.mapDelete(x, kt, x.keys[i])
					}
				}
			}
		case sliceV:
			et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				w.store(&x[i], w.zero(et))
			}
		}
		return nil
	case "close":
		w.chanClose(args[0].(*chanV))
		return nil
	case "panic":
		panic(goPanic{v: args[0].(iface), where: w.whereStr()})
	case "recover":
		return w.doRecover()
	case "print", "println":
		if *verbose {
			for _, a := range args {
				if s, ok := a.(Str); ok {
					if s = w.fs(s); s.b == nil {
						fmt.Fprintf(os.Stderr, "%q ", s.s)
						continue
					}
				}
				fmt.Fprint(os.Stderr, a, " ")
			}
			fmt.Fprintln(os.Stderr)
		}
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			switch x := r.(type) {
			case *Term:
				_, signed, _ := intType(cc.Args[0].Type())
				y := a.(*Term)
				var lt *Term
				if signed {
					lt = w.f.Slt(x, y)
				} else {
					lt = w.f.Ult(x, y)
				}
				if name == "min" {
					r = w.f.Ite(lt, x, y)
				} else {
					r = w.f.Ite(lt, y, x)
				}
			case float64:
				if name == "min" {
					r = min(x, a.(float64))
				} else {
					r = max(x, a.(float64))
				}
			case Str:
				y := a.(Str)
				lt := w.branch(w.strLt(x, y))
				if lt != (name == "min") {
					r = y
				}
			default:
				w.unsupported(name)
			}
		}
		return r
	case "real":
		return real(args[0].(complex128))
	case "imag":
		return imag(args[0].(complex128))
	case "complex":
		return complex(args[0].(float64), args[1].(float64))
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			w.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return args[0]
	case "String": // unsafe.String(ptr, len)
		n := int(w.mustInt(args[1]))
		if n == 0 {
			return Str{}
		}
		if d, ok := args[0].(dataPtr); ok {
			if d.st != nil {
				return w.subStr(*d.st, 0, n)
			}
			b := make([]*Term, n)
			for i := range b {
				b[i] = d.sl[i].(*Term)
			}
			return mkStr(b)
		}
	case "StringData":
		s := w.fs(args[0].(Str))
		return dataPtr{st: &s}
	case "SliceData":
		s := args[0].(sliceV)
		if s == nil {
			return (*value)(nil)
		}
		return dataPtr{sl: s[:cap(s)]}
	case "Slice": // unsafe.Slice(ptr, len)
		n := int(w.mustInt(args[1]))
		if d, ok := args[0].(dataPtr); ok {
			if d.st != nil {
				b := w.strBytes(*d.st)
				r := make(sliceV, n)
				for i := range r {
					r[i] = b[i]
				}
				return r
			}
			return d.sl[:n:n]
		}
		if n == 0 {
			return sliceV(nil)
		}
	}
	w.unsupported("builtin " + name)
	return nil
}

func (w *Worker) doAppend(args []value, cc *ssa.CallCommon) value {
	dst := args[0].(sliceV)
	var add []value
	switch src := args[1].(type) {
	case Str:
		for _, t := range w.strBytes(src) {
			add = append(add, t)
		}
	case sliceV:
		add = src
	default:
		w.unsupported("append")
	}
	if len(add) == 0 {
		return dst
	}
	n := len(dst) + len(add)
	if n > 1<<22 {
		panic(stopPath{"bound", "slice grows beyond the bound"})
	}
	if n <= cap(dst) {
		r := dst[:n]
		tmp := make([]value, len(add))
		for i := range add {
			tmp[i] = copyVal(add[i])
		}
		for i := range tmp {
			w.store(&r[len(dst)+i], tmp[i])
		}
		return r
	}
	c := n
	if d := 2 * cap(dst); cap(dst) < 256 && d > c {
		c = d
	} else if d := cap(dst) + cap(dst)/4; d > c {
		c = d
	}
	if c < 8 && cc != nil {
		if ew, _, ok := intType(cc.Args[0].Type().Underlying().(*types.Slice).Elem()); ok && ew <= 8 {
			c = 8
		}
	}
	r := make(sliceV, n, c)
	copy(r, dst)
	for i := range add {
		r[len(dst)+i] = copyVal(add[i])
	}
	// spare capacity must hold zero values
	if c > n && cc != nil {
		et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		full := r[:c]
		z := w.zero(et)
		for i := n; i < c; i++ {
			switch z.(type) {
			case structure, array:
				full[i] = w.zero(et)
			default:
				full[i] = z
			}
		}
	}
	// elements of struct type must not be shared with the old backing array
	for i := range dst {
		r[i] = copyVal(dst[i])
	}
	return r
}

func (w *Worker) nextStr(it *iterV) tuple {
	return w.nextS(it)
}
