package main

import (
	"fmt"
	"go/constant"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type value any

type Str struct {
	s      string
	b      []*Term // symbolic bytes when non-nil
	alts   []alt   // guarded alternatives (then opaque is set as well)
	opaque bool    // contents unknown (formatted symbolic data): may be carried, not inspected
}

type structure []value
type array []value
type sliceV []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

// symFloat is a float64 known to hold an integer (exactly representable).
type symFloat struct{ t *Term } // 64-bit signed

// unsafePtr remembers the slice behind unsafe.SliceData / StringData.
type dataPtr struct {
	sl sliceV
	st *Str
}

type mapV struct {
	keys []value
	vals []*value
	idx  map[any]int // concrete keys -> position
	nsym int         // number of live symbolic keys
	live int
	dead []bool
}

type iterV struct {
	m   *mapV
	ord []int
	pos int
	str *Str
	si  int
}

func (s Str) length() int {
	if s.b != nil {
		return len(s.b)
	}
	return len(s.s)
}

func (w *Worker) strByte(s Str, i int) *Term {
	if s.b != nil {
		return s.b[i]
	}
	return w.f.Const(8, uint64(s.s[i]))
}

func (w *Worker) strBytes(s Str) []*Term {
	s = w.fs(s)
	if s.opaque {
		w.unsupported("contents of a formatted symbolic string inspected")
	}
	if s.b != nil {
		return s.b
	}
	r := make([]*Term, len(s.s))
	for i := range r {
		r[i] = w.f.Const(8, uint64(s.s[i]))
	}
	return r
}

// mkStr builds a string value from byte terms (concrete when all are).
func mkStr(b []*Term) Str {
	conc := true
	for _, t := range b {
		if !t.isConst() {
			conc = false
			break
		}
	}
	if conc {
		bs := make([]byte, len(b))
		for i, t := range b {
			bs[i] = byte(t.val)
		}
		return Str{s: string(bs)}
	}
	return Str{b: b}
}

func (w *Worker) subStr(s Str, lo, hi int) Str {
	if s.b != nil {
		return mkStr(s.b[lo:hi])
	}
	return Str{s: s.s[lo:hi]}
}

func (w *Worker) concat(a, b Str) Str {
	if (a.alts != nil || b.alts != nil) && a.b == nil && b.b == nil {
		as, bs := a.alts, b.alts
		if as == nil && !a.opaque {
			as = []alt{{w.f.True, a.s}}
		}
		if bs == nil && !b.opaque {
			bs = []alt{{w.f.True, b.s}}
		}
		if n := len(as) * len(bs); n > 0 && n <= maxAlts {
			var r []alt
			for _, x := range as {
				for _, y := range bs {
					r = append(r, alt{w.f.BAnd(x.c, y.c), x.s + y.s})
				}
			}
			return w.mkAlts(r)
		}
	}
	if a.opaque || b.opaque {
		return Str{opaque: true}
	}
	if a.b == nil && b.b == nil {
		return Str{s: a.s + b.s}
	}
	return Str{b: append(append(make([]*Term, 0, a.length()+b.length()), w.strBytes(a)...), w.strBytes(b)...)}
}

func (w *Worker) strEq(a, b Str) *Term {
	if b.alts != nil {
		a, b = b, a
	}
	if a.alts != nil {
		r := w.f.False
		for _, x := range a.alts {
			r = w.f.BOr(r, w.f.BAnd(x.c, w.strEq(Str{s: x.s}, b)))
		}
		return r
	}
	if a.opaque || b.opaque {
		w.unsupported("formatted symbolic string compared")
	}
	if a.length() != b.length() {
		return w.f.False
	}
	if a.b == nil && b.b == nil {
		return w.f.Bool(a.s == b.s)
	}
	r := w.f.True
	for i := a.length() - 1; i >= 0; i-- {
		r = w.f.BAnd(w.f.Eq(w.strByte(a, i), w.strByte(b, i)), r)
	}
	return r
}

func (w *Worker) strLt(a, b Str) *Term {
	a, b = w.fs(a), w.fs(b)
	if a.opaque || b.opaque {
		w.unsupported("formatted symbolic string compared")
	}
	if a.b == nil && b.b == nil {
		return w.f.Bool(a.s < b.s)
	}
	n := min(a.length(), b.length())
	r := w.f.Bool(a.length() < b.length())
	for i := n - 1; i >= 0; i-- {
		x, y := w.strByte(a, i), w.strByte(b, i)
		r = w.f.Ite(w.f.Eq(x, y), r, w.f.Ult(x, y))
	}
	return r
}

func basicWidth(k types.BasicKind) (w uint8, signed, ok bool) {
	switch k {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func intType(t types.Type) (w uint8, signed, ok bool) {
	if b, o := t.Underlying().(*types.Basic); o {
		return basicWidth(b.Kind())
	}
	return 0, false, false
}

func isFloat(t types.Type) (bool, bool) {
	if b, o := t.Underlying().(*types.Basic); o {
		switch b.Kind() {
		case types.Float64, types.UntypedFloat:
			return true, false
		case types.Float32:
			return true, true
		}
	}
	return false, false
}

func isString(t types.Type) bool {
	b, o := t.Underlying().(*types.Basic)
	return o && (b.Kind() == types.String || b.Kind() == types.UntypedString)
}

func (w *Worker) zero(t types.Type) value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Kind() == types.UnsafePointer {
			return (*value)(nil)
		}
		if wd, _, ok := basicWidth(u.Kind()); ok {
			return w.f.Const(wd, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return Str{}
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.Complex64, types.Complex128, types.UntypedComplex:
			return complex128(0)
		case types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return sliceV(nil)
	case *types.Map:
		return (*mapV)(nil)
	case *types.Chan:
		return (*chanV)(nil)
	case *types.Interface:
		return iface{}
	case *types.Signature:
		return (*closure)(nil)
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = w.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		if n > 1<<20 {
			w.unsupported("huge array")
		}
		a := make(array, n)
		if n > 0 {
			z := w.zero(u.Elem())
			switch z.(type) {
			case structure, array:
				for i := range a {
					a[i] = w.zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		r := make(tuple, u.Len())
		for i := range r {
			r[i] = w.zero(u.At(i).Type())
		}
		return r
	}
	w.unsupported("zero value of " + t.String())
	return nil
}

func copyVal(v value) value {
	switch x := v.(type) {
	case structure:
		r := make(structure, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	case array:
		r := make(array, len(x))
		for i := range x {
			r[i] = copyVal(x[i])
		}
		return r
	}
	return v
}

func (w *Worker) constVal(c *ssa.Const) value {
	if c.Value == nil {
		return w.zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		if wd, signed, ok := basicWidth(b.Kind()); ok {
			if wd == 0 {
				return w.f.Bool(constant.BoolVal(c.Value))
			}
			v := constant.ToInt(c.Value)
			if signed {
				if x, ok := constant.Int64Val(v); ok {
					return w.f.Const(wd, uint64(x))
				}
			}
			x, _ := constant.Uint64Val(v)
			return w.f.Const(wd, x)
		}
		switch b.Kind() {
		case types.String, types.UntypedString:
			if c.Value.Kind() == constant.String {
				return Str{s: constant.StringVal(c.Value)}
			}
			x, _ := constant.Int64Val(constant.ToInt(c.Value))
			return Str{s: string(rune(x))}
		case types.Float64, types.UntypedFloat:
			x, _ := constant.Float64Val(c.Value)
			return x
		case types.Float32:
			x, _ := constant.Float32Val(c.Value)
			return float64(x)
		case types.Complex64, types.Complex128, types.UntypedComplex:
			re, _ := constant.Float64Val(constant.Real(c.Value))
			im, _ := constant.Float64Val(constant.Imag(c.Value))
			return complex(re, im)
		}
	}
	w.unsupported("constant " + c.String())
	return nil
}

// ---- equality -----------------------------------------------------------

func (w *Worker) eq(t types.Type, a, b value) *Term {
	switch x := a.(type) {
	case *Term:
		return w.f.Eq(x, b.(*Term))
	case Str:
		return w.strEq(x, b.(Str))
	case float64:
		switch y := b.(type) {
		case float64:
			return w.f.Bool(x == y)
		case symFloat:
			if x == float64(int64(x)) {
				return w.f.Eq(y.t, w.f.Const(64, uint64(int64(x))))
			}
			return w.f.False
		}
	case symFloat:
		if y, ok := b.(symFloat); ok {
			return w.f.Eq(x.t, y.t)
		}
		return w.eq(t, b, a)
	case complex128:
		return w.f.Bool(x == b.(complex128))
	case *value:
		if y, ok := b.(*value); ok {
			return w.f.Bool(x == y)
		}
		return w.f.False
	case iface:
		y, ok := b.(iface)
		if !ok {
			w.unsupported("interface comparison")
		}
		if x.t == nil || y.t == nil {
			return w.f.Bool(x.t == nil && y.t == nil)
		}
		if !identical(x.t, y.t) {
			return w.f.False
		}
		if !types.Comparable(x.t) {
			w.goPanicStr("runtime error: comparing uncomparable type " + x.t.String())
		}
		return w.eq(x.t, x.v, y.v)
	case structure:
		st := t.Underlying().(*types.Struct)
		y := b.(structure)
		r := w.f.True
		for i := range x {
			if st.Field(i).Name() == "_" {
				continue
			}
			r = w.f.BAnd(r, w.eq(st.Field(i).Type(), x[i], y[i]))
		}
		return r
	case array:
		et := t.Underlying().(*types.Array).Elem()
		y := b.(array)
		r := w.f.True
		for i := range x {
			r = w.f.BAnd(r, w.eq(et, x[i], y[i]))
		}
		return r
	case *mapV:
		return w.f.Bool(x == b.(*mapV))
	case *chanV:
		return w.f.Bool(x == b.(*chanV))
	case sliceV: // only against nil
		return w.f.Bool(x == nil && b.(sliceV) == nil)
	case *closure:
		if y, ok := b.(*closure); ok {
			return w.f.Bool(x == y)
		}
		return w.f.False // function against nil
	case *ssa.Function:
		if y, ok := b.(*ssa.Function); ok {
			return w.f.Bool(x == y)
		}
		return w.f.False
	case nil:
		return w.f.Bool(b == nil)
	}
	if _, ok := b.(*closure); ok {
		return w.f.False
	}
	w.unsupported(fmt.Sprintf("comparison of %T and %T", a, b))
	return nil
}

var identCache = map[[2]types.Type]bool{}

func identical(a, b types.Type) bool {
	return a == b || types.Identical(a, b)
}

// ---- maps -----------------------------------------------------------------

// keyOf returns a comparable host key for a fully concrete key.
func (w *Worker) keyOf(v value) (any, bool) {
	switch x := v.(type) {
	case *Term:
		if x.isConst() {
			return x.val, true
		}
		return nil, false
	case Str:
		if x.b != nil || x.opaque {
			return nil, false
		}
		return x.s, true
	case float64:
		return x, true
	case *value:
		return x, true
	case *chanV:
		return x, true
	case iface:
		if x.t == nil {
			return nil, true
		}
		k, ok := w.keyOf(x.v)
		if !ok {
			return nil, false
		}
		return [2]any{x.t.String(), k}, true
	case structure:
		s := ""
		for _, f := range x {
			k, ok := w.keyOf(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", k, k)
		}
		return "struct:" + s, true
	case array:
		s := ""
		for _, f := range x {
			k, ok := w.keyOf(f)
			if !ok {
				return nil, false
			}
			s += fmt.Sprintf("%T:%v|", k, k)
		}
		return "array:" + s, true
	}
	return nil, false
}

func newMap() *mapV { return &mapV{idx: map[any]int{}} }

// find returns the position of key in m or -1, forking on symbolic comparisons.
func (w *Worker) mapFind(m *mapV, kt types.Type, key value) int {
	key = w.forceArg(key)
	if m == nil {
		return -1
	}
	k, conc := w.keyOf(key)
	if conc {
		if i, ok := m.idx[k]; ok {
			return i
		}
		if m.nsym == 0 {
			return -1
		}
	}
	if s, ok := key.(Str); ok && s.opaque {
		w.unsupported("formatted symbolic string used as a map key")
	}
	for i := range m.keys {
		if m.dead[i] {
			continue
		}
		if conc {
			if _, c := w.keyOf(m.keys[i]); c {
				continue
			}
		}
		if w.branch(w.eq(kt, key, m.keys[i])) {
			return i
		}
	}
	return -1
}

func (w *Worker) mapSet(m *mapV, kt types.Type, key, val value) {
	key = w.forceArg(key)
	if i := w.mapFind(m, kt, key); i >= 0 {
		w.store(m.vals[i], val)
		return
	}
	k, conc := w.keyOf(key)
	i := len(m.keys)
	m.keys = append(m.keys, copyVal(key))
	nv := new(value)
	*nv = copyVal(val)
	m.vals = append(m.vals, nv)
	m.dead = append(m.dead, false)
	m.live++
	if conc {
		m.idx[k] = i
	} else {
		m.nsym++
	}
	w.undoFn(func() {
		m.keys = m.keys[:i]
		m.vals = m.vals[:i]
		m.dead = m.dead[:i]
		m.live--
		if conc {
			delete(m.idx, k)
		} else {
			m.nsym--
		}
	})
}

func (w *Worker) mapDelete(m *mapV, kt types.Type, key value) {
	i := w.mapFind(m, kt, key)
	if i < 0 {
		return
	}
	k, conc := w.keyOf(m.keys[i])
	m.dead[i] = true
	m.live--
	if conc {
		delete(m.idx, k)
	} else {
		m.nsym--
	}
	w.undoFn(func() {
		m.dead[i] = false
		m.live++
		if conc {
			m.idx[k] = i
		} else {
			m.nsym++
		}
	})
}

// ---- concrete views ---------------------------------------------------------

func (w *Worker) concStr(v value) (string, bool) {
	v = w.forceArg(v)
	s, ok := v.(Str)
	if !ok || s.opaque || s.b != nil {
		return "", false
	}
	return s.s, true
}

func (w *Worker) mustStr(v value) string {
	v = w.forceArg(v)
	s, ok := v.(Str)
	if !ok || s.opaque {
		w.unsupported("concrete string needed")
	}
	if s.b == nil {
		return s.s
	}
	bs := make([]byte, len(s.b))
	for i, t := range s.b {
		bs[i] = byte(w.concretize(t))
	}
	return string(bs)
}

func (w *Worker) mustInt(v value) int64 {
	t := v.(*Term)
	if t.isConst() {
		return sx(t.val, t.w)
	}
	return sx(w.concretize(t), t.w)
}

func (w *Worker) str(s string) value { return Str{s: s} }
func (w *Worker) intv(n int) *Term   { return w.f.Const(64, uint64(int64(n))) }
