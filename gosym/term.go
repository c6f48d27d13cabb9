package main

// Bit-vector / boolean terms, hash-consed per worker, with constant folding,
// bit-slice normalisation (so that a value split into bytes and put together
// again is the value itself) and unsigned interval information.

import (
	"fmt"
	"math/bits"
	"strings"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OAdd
	OSub
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLShr
	OAShr
	OConcat
	OExtract
	OSExt
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBNot
	OBAnd
	OBOr
)

// Term: w==0 means Bool.
type Term struct {
	op      Op
	w       uint8
	hi, lo  uint8 // extract
	id      int32
	val     uint64 // const value
	name    string
	a       [3]*Term
	ulo     uint64
	uhi     uint64
	ev      uint64
	epoch   uint32
	emitted uint32 // solver generation in which the definition was emitted
}

type tkey struct {
	op         Op
	w, hi, lo  uint8
	val        uint64
	a0, a1, a2 int32
}

type Factory struct {
	tab    map[tkey]*Term
	vars   map[string]*Term
	next   int32
	True   *Term
	False  *Term
	epoch  uint32
	xdepth int
	small  [65][]*Term
}

func NewFactory() *Factory {
	f := &Factory{tab: map[tkey]*Term{}, vars: map[string]*Term{}}
	f.True = f.Const(0, 1)
	f.False = f.Const(0, 0)
	f.epoch = 1
	return f
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sx(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (f *Factory) mk(k tkey, a, b, c *Term) *Term {
	if t, ok := f.tab[k]; ok {
		return t
	}
	f.next++
	t := &Term{op: k.op, w: k.w, hi: k.hi, lo: k.lo, val: k.val, id: f.next, a: [3]*Term{a, b, c}}
	f.interval(t)
	f.tab[k] = t
	return t
}

func aid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (f *Factory) node(op Op, w uint8, a, b, c *Term) *Term {
	return f.mk(tkey{op: op, w: w, a0: aid(a), a1: aid(b), a2: aid(c)}, a, b, c)
}

func (f *Factory) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if v < 256 {
		s := f.small[w]
		if s == nil {
			s = make([]*Term, 256)
			f.small[w] = s
		}
		if s[v] == nil {
			s[v] = f.mk(tkey{op: OConst, w: w, val: v}, nil, nil, nil)
		}
		return s[v]
	}
	return f.mk(tkey{op: OConst, w: w, val: v}, nil, nil, nil)
}

func (f *Factory) Bool(b bool) *Term {
	if b {
		return f.True
	}
	return f.False
}

// Var returns the variable of that name (and its range restricted to [lo,hi]).
func (f *Factory) Var(name string, w uint8, lo, hi uint64) *Term {
	key := fmt.Sprintf("%s|%d|%d|%d", name, w, lo, hi)
	if t, ok := f.vars[key]; ok {
		return t
	}
	f.next++
	t := &Term{op: OVar, w: w, id: f.next, name: name, ulo: lo, uhi: hi}
	f.vars[key] = t
	return t
}

func (t *Term) isConst() bool { return t.op == OConst }

func (f *Factory) interval(t *Term) {
	m := mask(t.w)
	t.ulo, t.uhi = 0, m
	a, b := t.a[0], t.a[1]
	switch t.op {
	case OConst:
		t.ulo, t.uhi = t.val, t.val
	case OAdd:
		hi, c := bits.Add64(a.uhi, b.uhi, 0)
		if c == 0 && hi <= m {
			t.ulo, t.uhi = a.ulo+b.ulo, hi
		}
	case OSub:
		if a.ulo >= b.uhi {
			t.ulo, t.uhi = a.ulo-b.uhi, a.uhi-b.ulo
		}
	case OMul:
		h, l := bits.Mul64(a.uhi, b.uhi)
		if h == 0 && l <= m {
			t.ulo, t.uhi = a.ulo*b.ulo, l
		}
	case OUDiv:
		if b.ulo > 0 {
			t.ulo, t.uhi = a.ulo/b.uhi, a.uhi/b.ulo
		}
	case OURem:
		if b.ulo > 0 {
			t.uhi = b.uhi - 1
			if a.uhi < t.uhi {
				t.uhi = a.uhi
			}
		}
	case OAnd:
		t.uhi = min(a.uhi, b.uhi)
	case OOr, OXor:
		n := bits.Len64(a.uhi | b.uhi)
		t.uhi = mask(uint8(n))
		if n == 0 {
			t.uhi = 0
		}
		if t.op == OOr {
			t.ulo = max(a.ulo, b.ulo)
		}
	case OLShr:
		if b.isConst() {
			if b.val >= 64 {
				t.uhi = 0
			} else {
				t.ulo, t.uhi = a.ulo>>b.val, a.uhi>>b.val
			}
		} else {
			t.uhi = a.uhi
		}
	case OConcat:
		t.ulo, t.uhi = a.ulo<<b.w|b.ulo, a.uhi<<b.w|b.uhi
		if a.ulo != a.uhi {
			t.ulo, t.uhi = a.ulo<<b.w, a.uhi<<b.w|mask(b.w)
		}
	case OExtract:
		if t.lo == 0 && a.uhi <= m {
			t.ulo, t.uhi = a.ulo, a.uhi
		} else if t.hi == a.w-1 {
			t.ulo, t.uhi = a.ulo>>t.lo, a.uhi>>t.lo
		}
	case OSExt:
		if a.uhi < uint64(1)<<(a.w-1) {
			t.ulo, t.uhi = a.ulo, a.uhi
		}
	case OIte:
		if t.w > 0 {
			x, y := t.a[1], t.a[2]
			t.ulo, t.uhi = min(x.ulo, y.ulo), max(x.uhi, y.uhi)
		}
	}
}

// ---- bit slices -------------------------------------------------------

type part struct {
	t      *Term // nil: constant
	hi, lo uint8
	val    uint64
	w      uint8
}

func (f *Factory) parts(t *Term) []part {
	switch t.op {
	case OConst:
		return []part{{w: t.w, val: t.val}}
	case OConcat:
		return append(f.parts(t.a[0]), f.parts(t.a[1])...)
	case OExtract:
		return []part{{t: t.a[0], hi: t.hi, lo: t.lo, w: t.w}}
	}
	return []part{{t: t, hi: t.w - 1, lo: 0, w: t.w}}
}

// slice of a part list: bits hi..lo of the whole (LSB = 0)
func slicep(ps []part, hi, lo uint8) []part {
	var total uint8
	for _, p := range ps {
		total += p.w
	}
	var out []part
	pos := total
	for _, p := range ps {
		top := pos - 1 // index of p's MSB
		bot := pos - p.w
		pos = bot
		if bot > hi || top < lo {
			continue
		}
		h, l := min(top, hi), max(bot, lo)
		q := p
		q.w = h - l + 1
		if p.t == nil {
			q.val = (p.val >> (l - bot)) & mask(q.w)
		} else {
			q.hi = p.lo + (h - bot)
			q.lo = p.lo + (l - bot)
		}
		out = append(out, q)
	}
	return out
}

func (f *Factory) fromParts(ps []part) *Term {
	var m []part
	for _, p := range ps {
		if p.w == 0 {
			continue
		}
		if p.t != nil && p.t.isConst() {
			p.val = (p.t.val >> p.lo) & mask(p.w)
			p.t = nil
		}
		if n := len(m); n > 0 {
			l := &m[n-1]
			if l.t == nil && p.t == nil {
				l.val = l.val<<p.w | p.val
				l.w += p.w
				continue
			}
			if l.t != nil && l.t == p.t && l.lo == p.hi+1 {
				l.lo = p.lo
				l.w += p.w
				continue
			}
		}
		m = append(m, p)
	}
	var res *Term
	for i := len(m) - 1; i >= 0; i-- {
		p := m[i]
		var t *Term
		if p.t == nil {
			t = f.Const(p.w, p.val)
		} else if p.lo == 0 && p.hi == p.t.w-1 {
			t = p.t
		} else {
			t = f.rawExtract(p.t, p.hi, p.lo)
		}
		if res == nil {
			res = t
		} else {
			w := t.w + res.w
			if t.isConst() && res.isConst() {
				res = f.Const(w, t.val<<res.w|res.val)
			} else {
				res = f.node(OConcat, w, t, res, nil)
			}
		}
	}
	return res
}

func (f *Factory) rawExtract(t *Term, hi, lo uint8) *Term {
	if lo == 0 && hi == t.w-1 {
		return t
	}
	w := hi - lo + 1
	op := t.op
	if f.xdepth > 6 && op != OConst { // do not push extracts down large terms
		op = OExtract
		if t.op != OExtract && t.op != OConcat {
			op = OVar
		}
	}
	f.xdepth++
	defer func() { f.xdepth-- }()
	switch op {
	case OConst:
		return f.Const(w, t.val>>lo)
	case OConcat, OExtract:
		return f.fromParts(slicep(f.parts(t), hi, lo))
	case OIte:
		if t.a[1].isConst() || t.a[2].isConst() {
			return f.Ite(t.a[0], f.rawExtract(t.a[1], hi, lo), f.rawExtract(t.a[2], hi, lo))
		}
	case OAnd, OOr, OXor:
		return f.Bin(t.op, f.rawExtract(t.a[0], hi, lo), f.rawExtract(t.a[1], hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 && hi < t.w-1 {
			return f.Bin(t.op, f.rawExtract(t.a[0], hi, 0), f.rawExtract(t.a[1], hi, 0))
		}
	case OSExt:
		if hi < t.a[0].w {
			return f.rawExtract(t.a[0], hi, lo)
		}
	}
	if t.uhi>>lo == 0 && lo > 0 {
		return f.Const(w, 0)
	}
	return f.mk(tkey{op: OExtract, w: w, hi: hi, lo: lo, a0: t.id}, t, nil, nil)
}

func (f *Factory) Extract(t *Term, hi, lo uint8) *Term { return f.rawExtract(t, hi, lo) }

func (f *Factory) ZExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.op == OIte && t.a[1].isConst() && t.a[2].isConst() {
		return f.Ite(t.a[0], f.ZExt(t.a[1], w), f.ZExt(t.a[2], w))
	}
	return f.fromParts(append([]part{{w: w - t.w}}, f.parts(t)...))
}

func (f *Factory) SExt(t *Term, w uint8) *Term {
	if t.w == w {
		return t
	}
	if t.isConst() {
		return f.Const(w, uint64(sx(t.val, t.w)))
	}
	if t.uhi < uint64(1)<<(t.w-1) {
		return f.ZExt(t, w)
	}
	return f.node(OSExt, w, t, nil, nil)
}

// Conv converts an integer term to width w (source signedness decides the extension).
func (f *Factory) Conv(t *Term, w uint8, signed bool) *Term {
	if t.w == w {
		return t
	}
	if w < t.w {
		return f.rawExtract(t, w-1, 0)
	}
	if signed {
		return f.SExt(t, w)
	}
	return f.ZExt(t, w)
}

// ---- arithmetic -------------------------------------------------------

func foldBin(op Op, w uint8, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUDiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OURem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSDiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1, true
			}
			return m, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSRem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OAnd:
		return x & y, true
	case OOr:
		return x | y, true
	case OXor:
		return (x ^ y) & m, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLShr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sx(x, w)>>y) & m, true
	}
	return 0, false
}

func nonneg(t *Term) bool { return t.uhi < uint64(1)<<(t.w-1) }

func (f *Factory) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		if v, ok := foldBin(op, w, a.val, b.val); ok {
			return f.Const(w, v)
		}
	}
	switch op {
	case OAdd:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if a.op == OAdd && a.a[1].isConst() {
				return f.Bin(OAdd, a.a[0], f.Const(w, a.a[1].val+b.val))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
		// (x - y) + y
		if a.op == OSub && a.a[1] == b {
			return a.a[0]
		}
		if b.op == OSub && b.a[1] == a {
			return b.a[0]
		}
	case OSub:
		if a == b {
			return f.Const(w, 0)
		}
		if b.isConst() {
			return f.Bin(OAdd, a, f.Const(w, -b.val))
		}
		if a.op == OAdd {
			if a.a[0] == b {
				return a.a[1]
			}
			if a.a[1] == b {
				return a.a[0]
			}
		}
	case OMul:
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			switch b.val {
			case 0:
				return b
			case 1:
				return a
			}
			if b.val&(b.val-1) == 0 {
				return f.Bin(OShl, a, f.Const(w, uint64(bits.TrailingZeros64(b.val))))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
	case OSDiv, OSRem:
		if nonneg(a) && nonneg(b) {
			if op == OSDiv {
				return f.Bin(OUDiv, a, b)
			}
			return f.Bin(OURem, a, b)
		}
	case OUDiv, OURem:
		if b.isConst() && b.val != 0 {
			c := b.val
			if a.uhi < c {
				if op == OUDiv {
					return f.Const(w, 0)
				}
				return a
			}
			if c&(c-1) == 0 {
				k := uint64(bits.TrailingZeros64(c))
				if op == OUDiv {
					return f.Bin(OLShr, a, f.Const(w, k))
				}
				return f.Bin(OAnd, a, f.Const(w, c-1))
			}
			// (x*c + y) / c with y < c and no overflow; also (x*c)/c
			if q, r, ok := f.splitMul(a, c); ok {
				if op == OUDiv {
					return q
				}
				return r
			}
		}
	case OAnd:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			return f.andMask(a, b.val)
		}
		if a.id > b.id {
			a, b = b, a
		}
	case OOr:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return a
		}
		if b.isConst() {
			if b.val == 0 {
				return a
			}
			if b.val == mask(w) {
				return b
			}
		}
		if t := f.mergeOr(a, b); t != nil {
			return t
		}
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
	case OXor:
		if a.isConst() {
			a, b = b, a
		}
		if a == b {
			return f.Const(w, 0)
		}
		if b.isConst() && b.val == 0 {
			return a
		}
		if b.isConst() && a.op == OXor && a.a[1].isConst() {
			return f.Bin(OXor, a.a[0], f.Const(w, a.a[1].val^b.val))
		}
		if a.id > b.id && !b.isConst() {
			a, b = b, a
		}
	case OShl:
		if b.isConst() {
			k := b.val
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return f.Const(w, 0)
			}
			ps := slicep(f.parts(a), w-1-uint8(k), 0)
			return f.fromParts(append(append([]part{}, ps...), part{w: uint8(k)}))
		}
	case OLShr:
		if b.isConst() {
			k := b.val
			if k == 0 {
				return a
			}
			if k >= uint64(w) {
				return f.Const(w, 0)
			}
			ps := slicep(f.parts(a), w-1, uint8(k))
			return f.fromParts(append([]part{{w: uint8(k)}}, ps...))
		}
	case OAShr:
		if nonneg(a) {
			return f.Bin(OLShr, a, b)
		}
		if b.isConst() && b.val == 0 {
			return a
		}
	}
	if op == OAnd || op == OOr || op == OXor || op == OAdd || op == OSub || op == OMul {
		// push constants through ite
		if b.isConst() && a.op == OIte && a.a[1].isConst() && a.a[2].isConst() {
			return f.Ite(a.a[0], f.Bin(op, a.a[1], b), f.Bin(op, a.a[2], b))
		}
	}
	return f.node(op, w, a, b, nil)
}

// splitMul recognises a = x*c + y with y<c provably and no wrap.
func (f *Factory) splitMul(a *Term, c uint64) (q, r *Term, ok bool) {
	isMul := func(t *Term) (*Term, bool) {
		if t.op == OMul && t.a[1].isConst() && t.a[1].val == c {
			h, l := bits.Mul64(t.a[0].uhi, c)
			if h == 0 && l <= mask(t.w) {
				return t.a[0], true
			}
		}
		return nil, false
	}
	if x, ok := isMul(a); ok {
		return x, f.Const(a.w, 0), true
	}
	if a.op == OAdd {
		for i := 0; i < 2; i++ {
			m, y := a.a[i], a.a[1-i]
			if x, ok := isMul(m); ok && y.uhi < c {
				s, cc := bits.Add64(m.uhi, y.uhi, 0)
				if cc == 0 && s <= mask(a.w) {
					return x, y, true
				}
			}
		}
	}
	return nil, nil, false
}

func (f *Factory) andMask(a *Term, m uint64) *Term {
	w := a.w
	if a.uhi&^m == 0 && bits.Len64(a.uhi) > 0 {
		// all possible bits kept?
		full := mask(uint8(bits.Len64(a.uhi)))
		if full&m == full {
			return a
		}
	}
	// contiguous mask runs -> slices
	runs := 0
	prev := uint64(0)
	for i := uint8(0); i < w; i++ {
		b := (m >> i) & 1
		if b == 1 && prev == 0 {
			runs++
		}
		prev = b
	}
	if runs <= 3 {
		ps := f.parts(a)
		var out []part
		i := int(w) - 1
		for i >= 0 {
			b := (m >> uint(i)) & 1
			j := i
			for j >= 0 && (m>>uint(j))&1 == b {
				j--
			}
			if b == 1 {
				out = append(out, slicep(ps, uint8(i), uint8(j+1))...)
			} else {
				out = append(out, part{w: uint8(i - j)})
			}
			i = j
		}
		return f.fromParts(out)
	}
	return f.node(OAnd, w, a, f.Const(w, m), nil)
}

// mergeOr merges a|b when at every bit one of the two is constant (0, or 1).
func (f *Factory) mergeOr(a, b *Term) *Term {
	if a.op != OConcat && a.op != OConst && b.op != OConcat && b.op != OConst {
		return nil
	}
	pa, pb := f.parts(a), f.parts(b)
	// cut points
	w := a.w
	var out []part
	i, j := 0, 0
	var ra, rb uint8 // consumed bits of current part
	pos := w
	for pos > 0 {
		x, y := pa[i], pb[j]
		n := min(x.w-ra, y.w-rb)
		sxp := slicep([]part{x}, x.w-ra-1, x.w-ra-n)[0]
		syp := slicep([]part{y}, y.w-rb-1, y.w-rb-n)[0]
		switch {
		case sxp.t == nil && syp.t == nil:
			out = append(out, part{w: n, val: sxp.val | syp.val})
		case sxp.t == nil && sxp.val == 0:
			out = append(out, syp)
		case syp.t == nil && syp.val == 0:
			out = append(out, sxp)
		case sxp.t == nil && sxp.val == mask(n):
			out = append(out, sxp)
		case syp.t == nil && syp.val == mask(n):
			out = append(out, syp)
		default:
			return nil
		}
		ra += n
		rb += n
		pos -= n
		if ra == x.w {
			i++
			ra = 0
		}
		if rb == y.w {
			j++
			rb = 0
		}
	}
	return f.fromParts(out)
}

func (f *Factory) Not(a *Term) *Term { // bitwise complement
	return f.Bin(OXor, a, f.Const(a.w, mask(a.w)))
}

func (f *Factory) Ite(c, x, y *Term) *Term {
	if c.isConst() {
		if c.val == 1 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.w == 0 {
		if x.isConst() && y.isConst() {
			if x.val == 1 {
				return c
			}
			return f.BNot(c)
		}
		if x.isConst() {
			if x.val == 1 {
				return f.BOr(c, y)
			}
			return f.BAnd(f.BNot(c), y)
		}
		if y.isConst() {
			if y.val == 1 {
				return f.BOr(f.BNot(c), x)
			}
			return f.BAnd(c, x)
		}
	}
	if c.op == OBNot {
		return f.Ite(c.a[0], y, x)
	}
	return f.node(OIte, x.w, c, x, y)
}

func (f *Factory) BNot(a *Term) *Term {
	if a.isConst() {
		return f.Bool(a.val == 0)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return f.node(OBNot, 0, a, nil, nil)
}

func (f *Factory) BAnd(a, b *Term) *Term {
	if a.isConst() {
		if a.val == 0 {
			return a
		}
		return b
	}
	if b.isConst() {
		if b.val == 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if f.BNot(a) == b {
		return f.False
	}
	return f.node(OBAnd, 0, a, b, nil)
}

func (f *Factory) BOr(a, b *Term) *Term {
	return f.BNot(f.BAnd(f.BNot(a), f.BNot(b)))
}

// offset splits x+c.
func (t *Term) offset() (*Term, uint64) {
	if t.op == OAdd && t.a[1].isConst() {
		return t.a[0], t.a[1].val
	}
	return t, 0
}

func (f *Factory) Eq(a, b *Term) *Term {
	if a == b {
		return f.True
	}
	if a.isConst() && b.isConst() {
		return f.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val == 1 {
				return a
			}
			return f.BNot(a)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if a.w > 0 {
		if a.uhi < b.ulo || b.uhi < a.ulo {
			return f.False
		}
		if b.isConst() {
			switch a.op {
			case OConcat:
				return f.BAnd(f.Eq(a.a[0], f.Const(a.a[0].w, b.val>>a.a[1].w)), f.Eq(a.a[1], f.Const(a.a[1].w, b.val)))
			case OIte:
				if a.a[1].isConst() || a.a[2].isConst() {
					return f.Ite(a.a[0], f.Eq(a.a[1], b), f.Eq(a.a[2], b))
				}
			case OAdd:
				if a.a[1].isConst() {
					return f.Eq(a.a[0], f.Const(a.w, b.val-a.a[1].val))
				}
			case OXor:
				if a.a[1].isConst() {
					return f.Eq(a.a[0], f.Const(a.w, b.val^a.a[1].val))
				}
			case OSExt:
				n := a.a[0].w
				if uint64(sx(b.val, n))&mask(a.w) != b.val {
					return f.False
				}
				return f.Eq(a.a[0], f.Const(n, b.val))
			}
		} else if a.op == OConcat && b.op == OConcat && a.a[0].w == b.a[0].w {
			return f.BAnd(f.Eq(a.a[0], b.a[0]), f.Eq(a.a[1], b.a[1]))
		} else {
			// x+c == y+d for the same x
			x, c := a.offset()
			y, d := b.offset()
			if x == y {
				return f.Bool(c == d)
			}
		}
	}
	if a.id > b.id && !b.isConst() {
		a, b = b, a
	}
	return f.node(OEq, 0, a, b, nil)
}

func (f *Factory) Ult(a, b *Term) *Term {
	if a == b {
		return f.False
	}
	if a.uhi < b.ulo {
		return f.True
	}
	if a.ulo >= b.uhi {
		return f.False
	}
	// zero-extension on both sides: compare the low parts
	if a.op == OConcat && a.a[0].isConst() && a.a[0].val == 0 && b.isConst() {
		return f.Ult(a.a[1], f.Const(a.a[1].w, b.val))
	}
	if b.op == OConcat && b.a[0].isConst() && b.a[0].val == 0 && a.isConst() {
		return f.Ult(f.Const(b.a[1].w, a.val), b.a[1])
	}
	return f.node(OUlt, 0, a, b, nil)
}
func (f *Factory) Ule(a, b *Term) *Term { return f.BNot(f.Ult(b, a)) }

func (f *Factory) Slt(a, b *Term) *Term {
	if a == b {
		return f.False
	}
	if a.isConst() && b.isConst() {
		return f.Bool(sx(a.val, a.w) < sx(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return f.Ult(a, b)
	}
	neg := func(t *Term) bool { return t.ulo >= uint64(1)<<(t.w-1) }
	if neg(a) && nonneg(b) {
		return f.True
	}
	if nonneg(a) && neg(b) {
		return f.False
	}
	if neg(a) && neg(b) {
		return f.Ult(a, b)
	}
	return f.node(OSlt, 0, a, b, nil)
}
func (f *Factory) Sle(a, b *Term) *Term { return f.BNot(f.Slt(b, a)) }

// ---- evaluation under an assignment -----------------------------------

type Model map[string]uint64

func (f *Factory) NewEpoch() { f.epoch++ }

func (f *Factory) Eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.epoch == f.epoch {
		return t.ev
	}
	var r uint64
	switch t.op {
	case OVar:
		v, ok := m[t.name]
		if !ok || v < t.ulo || v > t.uhi {
			v = t.ulo
		}
		r = v
	case OConcat:
		r = f.Eval(t.a[0], m)<<t.a[1].w | f.Eval(t.a[1], m)
	case OExtract:
		r = (f.Eval(t.a[0], m) >> t.lo) & mask(t.w)
	case OSExt:
		r = uint64(sx(f.Eval(t.a[0], m), t.a[0].w)) & mask(t.w)
	case OIte:
		if f.Eval(t.a[0], m) == 1 {
			r = f.Eval(t.a[1], m)
		} else {
			r = f.Eval(t.a[2], m)
		}
	case OEq:
		r = b2u(f.Eval(t.a[0], m) == f.Eval(t.a[1], m))
	case OUlt:
		r = b2u(f.Eval(t.a[0], m) < f.Eval(t.a[1], m))
	case OUle:
		r = b2u(f.Eval(t.a[0], m) <= f.Eval(t.a[1], m))
	case OSlt:
		r = b2u(sx(f.Eval(t.a[0], m), t.a[0].w) < sx(f.Eval(t.a[1], m), t.a[1].w))
	case OSle:
		r = b2u(sx(f.Eval(t.a[0], m), t.a[0].w) <= sx(f.Eval(t.a[1], m), t.a[1].w))
	case OBNot:
		r = 1 - f.Eval(t.a[0], m)
	case OBAnd:
		r = f.Eval(t.a[0], m) & f.Eval(t.a[1], m)
	case OBOr:
		r = f.Eval(t.a[0], m) | f.Eval(t.a[1], m)
	default:
		r, _ = foldBin(t.op, t.w, f.Eval(t.a[0], m), f.Eval(t.a[1], m))
	}
	t.ev = r
	t.epoch = f.epoch
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// ---- SMT-LIB ----------------------------------------------------------

var opname = map[Op]string{OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr",
	OAShr: "bvashr", OConcat: "concat", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt",
	OSle: "bvsle", OBNot: "not", OBAnd: "and", OBOr: "or"}

func (t *Term) ref() string {
	if t.op == OConst {
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
	}
	if t.op == OVar {
		return "v" + fmt.Sprint(t.id)
	}
	return "t" + fmt.Sprint(t.id)
}

func bvsort(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func (t *Term) expr() string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, t.a[0].ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a[0].w, t.a[0].ref())
	}
	var b strings.Builder
	b.WriteString("(" + opname[t.op])
	for _, x := range t.a {
		if x != nil {
			b.WriteString(" " + x.ref())
		}
	}
	b.WriteString(")")
	return b.String()
}

// define writes the declarations needed for t (each node once per solver generation).
func (t *Term) define(gen uint32, out *strings.Builder, onvar func(*Term)) {
	if t.op == OConst || t.emitted == gen {
		return
	}
	for _, x := range t.a {
		if x != nil {
			x.define(gen, out, onvar)
		}
	}
	t.emitted = gen
	if t.op == OVar {
		fmt.Fprintf(out, "(declare-const %s %s)\n", t.ref(), bvsort(t.w))
		if onvar != nil {
			onvar(t)
		}
		return
	}
	fmt.Fprintf(out, "(define-fun %s () %s %s)\n", t.ref(), bvsort(t.w), t.expr())
}

func (t *Term) String() string {
	var b strings.Builder
	t.str(&b, 6)
	return b.String()
}
func (t *Term) str(b *strings.Builder, d int) {
	if t.op == OConst {
		if t.w == 0 {
			fmt.Fprint(b, t.val == 1)
		} else {
			fmt.Fprintf(b, "%d", t.val)
		}
		return
	}
	if t.op == OVar {
		b.WriteString(t.name)
		return
	}
	if d == 0 {
		b.WriteString("…")
		return
	}
	if t.op == OExtract {
		t.a[0].str(b, d-1)
		fmt.Fprintf(b, "[%d:%d]", t.hi, t.lo)
		return
	}
	b.WriteString("(" + opname[t.op])
	for _, x := range t.a {
		if x != nil {
			b.WriteString(" ")
			x.str(b, d-1)
		}
	}
	b.WriteString(")")
}
