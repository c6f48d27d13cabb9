package holes

import "github.com/charlesetsmith/saratoga/zzverif/sym"

// n received ranges with arbitrary bounds up to max, in any order; x is an
// arbitrary byte position.
func c13seq(n int, max uint64) {
	var h Holes
	x := int(sym.Range("x", 0, max))
	last := 0
	covered := false
	any := false
	for i := 0; i < n; i++ {
		s := int(sym.Range("start", 0, max))
		e := int(sym.Range("end", 0, max))
		before := len(h)
		h = h.Add(s, e)
		if e <= s {
			sym.Assert(len(h) == before, "an empty or inverted range changes nothing")
			continue
		}
		any = true
		last = sym.IfInt(e > last, e, last)
		covered = sym.Or(covered, sym.And(x >= s, x < e))
	}
	in := false
	ok := true
	for i := range h {
		ok = sym.And(ok, h[i].Start < h[i].End)
		if i > 0 {
			ok = sym.And(ok, h[i-1].End < h[i].Start)
		}
		in = sym.Or(in, sym.And(x >= h[i].Start, x < h[i].End))
	}
	sym.Assert(ok, "fills sorted, disjoint, non-adjacent and not empty")
	sym.Assert(in == covered, "fills cover exactly the bytes received")
	g := h.Getholes()
	sym.Assert(h.Lenholes() == len(g), "Lenholes is the number of holes")
	inhole := false
	ok = true
	for i := range g {
		ok = sym.And(ok, g[i].Start < g[i].End, g[i].Start >= 0)
		if i > 0 {
			ok = sym.And(ok, g[i-1].End < g[i].Start)
		}
		inhole = sym.Or(inhole, sym.And(x >= g[i].Start, x < g[i].End))
	}
	sym.Assert(ok, "holes sorted, maximal and not empty")
	want := sym.And(any, x < last, sym.Not(covered))
	sym.Assert(inhole == want, "holes are exactly the missing bytes below the last one received")
	sym.Cover("end of sequence")
}

func Verif_C13_wide() {
	sym.Bound("3 received ranges, every bound an arbitrary value below 2^62")
	c13seq(3, 1<<62-1)
}

func Verif_C13_long() {
	n := 4
	if sym.Thorough() {
		n = 5
	}
	sym.Bound("4 (thorough: 5) received ranges, every bound an arbitrary value below 2^12")
	c13seq(n, 1<<12-1)
}

// one range added to any valid state: what holds after every history whose
// fills never number more than n.
func Verif_C13_step() {
	n := 6
	if sym.Thorough() {
		n = 12
	}
	sym.Bound("one arbitrary range added to every valid state of up to 6 (thorough: 12) fills, every bound an arbitrary value below 2^40")
	k := sym.Choose("fills", n+1)
	h := make(Holes, 0, k)
	x := int(sym.Range("x", 0, 1<<41))
	end := -1
	covered := false
	for i := 0; i < k; i++ {
		s := int(sym.Range("fillstart", 0, 1<<40))
		e := int(sym.Range("fillend", 0, 1<<40))
		sym.Assume(sym.And(s > end, s < e))
		h = append(h, Hole{s, e})
		covered = sym.Or(covered, sym.And(x >= s, x < e))
		end = e
	}
	s := int(sym.Range("start", 0, 1<<40))
	e := int(sym.Range("end", 0, 1<<40))
	sym.Assume(s < e)
	covered = sym.Or(covered, sym.And(x >= s, x < e))
	end = sym.IfInt(sym.And(k > 0, end > e), end, e)
	h = h.Add(s, e)
	in := false
	ok := true
	for i := range h {
		ok = sym.And(ok, h[i].Start < h[i].End)
		if i > 0 {
			ok = sym.And(ok, h[i-1].End < h[i].Start)
		}
		in = sym.Or(in, sym.And(x >= h[i].Start, x < h[i].End))
	}
	sym.Assert(ok, "fills sorted, disjoint, non-adjacent and not empty")
	sym.Assert(in == covered, "fills cover exactly the bytes received")
	g := h.Getholes()
	inhole := false
	ok = true
	for i := range g {
		ok = sym.And(ok, g[i].Start < g[i].End, g[i].Start >= 0)
		if i > 0 {
			ok = sym.And(ok, g[i-1].End < g[i].Start)
		}
		inhole = sym.Or(inhole, sym.And(x >= g[i].Start, x < g[i].End))
	}
	sym.Assert(ok, "holes sorted, maximal and not empty")
	sym.Assert(inhole == sym.And(x < end, sym.Not(covered)), "holes are exactly the missing bytes below the last one received")
	sym.Cover("end of step")
}
