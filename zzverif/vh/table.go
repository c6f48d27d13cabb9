package vh

import "github.com/charlesetsmith/saratoga/zzverif/sym"

// The header fields of the protocol: first bit, number of bits, options.
type Opt struct {
	Name string
	Val  uint32
}
type Field struct {
	Name     string
	Msb, Len uint32
	Opts     []Opt
}

var Fields = []Field{
	{"version", 0, 3, []Opt{{"v0", 0}, {"v1", 1}}},
	{"frametype", 3, 5, []Opt{{"beacon", 0}, {"request", 1}, {"metadata", 2}, {"data", 3}, {"status", 4}}},
	{"descriptor", 8, 2, []Opt{{"d16", 0}, {"d32", 1}, {"d64", 2}, {"d128", 3}}},
	{"stream", 11, 1, []Opt{{"no", 0}, {"yes", 1}}},
	{"transfer", 10, 2, []Opt{{"file", 0}, {"directory", 1}, {"bundle", 2}, {"stream", 3}}},
	{"reqtstamp", 12, 1, []Opt{{"no", 0}, {"yes", 1}}},
	{"progress", 12, 1, []Opt{{"inprogress", 0}, {"terminated", 1}}},
	{"txwilling", 12, 2, []Opt{{"no", 0}, {"invalid", 1}, {"capable", 2}, {"yes", 3}}},
	{"metadatarecvd", 13, 1, []Opt{{"yes", 0}, {"no", 1}}},
	{"allholes", 14, 1, []Opt{{"yes", 0}, {"no", 1}}},
	{"reqtype", 24, 8, []Opt{{"noaction", 0}, {"get", 1}, {"put", 2}, {"take", 3}, {"give", 4}, {"delete", 5}, {"getdir", 6}}},
	{"rxwilling", 14, 2, []Opt{{"no", 0}, {"invalid", 1}, {"capable", 2}, {"yes", 3}}},
	{"reqholes", 15, 1, []Opt{{"requested", 0}, {"voluntarily", 1}}},
	{"reqstatus", 15, 1, []Opt{{"no", 0}, {"yes", 1}}},
	{"udplite", 16, 1, []Opt{{"no", 0}, {"yes", 1}}},
	{"eod", 16, 1, []Opt{{"no", 0}, {"yes", 1}}},
	{"freespace", 17, 1, []Opt{{"no", 0}, {"yes", 1}}},
	{"freespaced", 18, 2, []Opt{{"d16", 0}, {"d32", 1}, {"d64", 2}, {"d128", 3}}},
	{"csumlen", 24, 4, []Opt{{"none", 0}, {"crc32", 1}, {"invalid2", 2}, {"invalid3", 3}, {"md5", 4}, {"sha1", 5}}},
	{"csumtype", 28, 4, []Opt{{"none", 0}, {"crc32", 1}, {"md5", 2}, {"sha1", 3}}},
	{"reliability", 13, 1, []Opt{{"udponly", 0}, {"udplite", 1}}},
	{"errcode", 24, 8, []Opt{{"success", 0}, {"unspecified", 1}, {"cantsend", 2}, {"cantreceive", 3}, {"filenotfound", 4}, {"accessdenied", 5}, {"unknownid", 6}, {"didnotdelete", 7}, {"filetobig", 8}, {"badoffset", 9}, {"badpacket", 10}, {"badrequest", 11}, {"internaltimeout", 12}, {"baddataflag", 13}, {"rxnotinterested", 14}, {"fileinuse", 15}, {"metadatarequired", 16}, {"badstatus", 17}, {"rxtimeout", 18}}},
}

func FieldNamed(n string) Field {
	for _, f := range Fields {
		if f.Name == n {
			return f
		}
	}
	panic("no field " + n)
}

func (f Field) Mask() uint32         { return (1<<f.Len - 1) << (32 - f.Len - f.Msb) }
func (f Field) Bits(v uint32) uint32 { return v << (32 - f.Len - f.Msb) }
func (f Field) Get(h uint32) uint32  { return h & f.Mask() >> (32 - f.Len - f.Msb) }
func HGet(h uint32, n string) uint32 { return FieldNamed(n).Get(h) }
func HOpt(n, o string) uint32 {
	for _, x := range FieldNamed(n).Opts {
		if x.Name == o {
			return x.Val
		}
	}
	panic("no option " + o)
}

// HSet is header h with option o of field n.
func HSet(h uint32, n, o string) uint32 {
	f := FieldNamed(n)
	return h&^f.Mask() | f.Bits(HOpt(n, o))
}

func (f Field) Has(o string) bool {
	r := false
	for _, x := range f.Opts {
		r = sym.Or(r, sym.EqStr(x.Name, o))
	}
	return r
}

// Token is arbitrary text of n bytes without the separators of flag strings.
func Token(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] != ',', s[i] != '=', s[i] != ' '))
	}
	return s
}

// AnyFlag is one item of a flag string for a frame that takes the fields in
// names and no other; ok: it is well formed; set: what it does to the header.
func AnyFlag(tag string, names, also []string, kinds int) (text string, ok bool, set func(uint32) uint32) {
	set = func(h uint32) uint32 { return h }
	f := FieldNamed(names[sym.Choose(tag+".flag", len(names))])
	switch sym.Choose(tag+".kind", kinds) {
	case 0:
		o := f.Opts[sym.Choose(tag+".opt", len(f.Opts))]
		return f.Name + "=" + o.Name, true, func(h uint32) uint32 { return h&^f.Mask() | f.Bits(o.Val) }
	case 1: // an unknown option
		o := Token(tag+".text", sym.Choose(tag+".len", 5))
		sym.Assume(sym.Not(f.Has(o)))
		return f.Name + "=" + o, false, set
	case 2: // no option, or two of them
		if sym.Choose(tag+".two", 2) == 1 {
			o := f.Opts[sym.Choose(tag+".opt", len(f.Opts))].Name
			return f.Name + "=" + o + "=" + Token(tag+".text", sym.Choose(tag+".len", 2)), false, set
		}
		return f.Name, false, set
	case 3: // no such field
		n := Token(tag+".text", 1+sym.Choose(tag+".len", 3))
		known := false
		for _, x := range names {
			known = sym.Or(known, sym.EqStr(x, n))
		}
		sym.Assume(sym.Not(known))
		return n + "=yes", false, set
	}
	// a field of other frames
	var others []Field
	for _, g := range Fields {
		mine := false
		for _, x := range append(append([]string{"version", "frametype", "stream", "csumlen", "freespaced"}, names...), also...) {
			mine = mine || x == g.Name
		}
		if !mine {
			others = append(others, g)
		}
	}
	g := others[sym.Choose(tag+".other", len(others))]
	return g.Name + "=" + g.Opts[0].Name, false, set
}

// AnyFlags is a flag string of one or two items.
func AnyFlags(names []string, also ...string) (text string, ok bool, set func(uint32) uint32) {
	a, ok, fa := AnyFlag("a", names, also, 5)
	if sym.Choose("items", 2) == 0 {
		if sym.Choose("spaces", 2) == 1 {
			a = " " + a + "  "
		}
		return a, ok, fa
	}
	kinds := 5
	if !ok {
		kinds = 1 // one malformed item is enough
	}
	b, okb, fb := AnyFlag("b", names, also, kinds)
	return a + "," + b, ok && okb, func(h uint32) uint32 { return fb(fa(h)) }
}
