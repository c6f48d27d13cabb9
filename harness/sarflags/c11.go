package sarflags

import "github.com/charlesetsmith/saratoga/zzverif/sym"

func mask(f field, width uint32) uint32 { return (1<<f.len - 1) << (width - f.len - f.msb) }

func fieldNamed(n string) field {
	for _, f := range fields {
		if f.name == n {
			return f
		}
	}
	return field{}
}

// isOpt: s is the name of an option, without forking
func isOpt(o []opt, s string) bool {
	r := false
	for _, x := range o {
		r = sym.Or(r, sym.EqStr(x.name, s))
	}
	return r
}

func Verif_C11_set() {
	sym.Bound("every header field and every one of its options; every 32-bit header")
	f := fields[sym.Choose("field", len(fields))]
	o := f.opts[sym.Choose("option", len(f.opts))]
	h := sym.U32("header")
	m := mask(f, 32)
	g, err := Set(h, f.name, o.name)
	sym.Assert(err == nil, "a named option of a field is set")
	sym.Assert(g&^m == h&^m, "setting a field changes no bit outside it")
	sym.Assert(g&m == o.val<<(32-f.len-f.msb), "setting a field gives it the option's bits")
	sym.Assert(Get(g, f.name) == o.val, "a field reads back as set, by number")
	sym.Assert(GetStr(g, f.name) == o.name, "a field reads back as set, by name")
	sym.Assert(Name(g, f.name) == o.name, "a field's name is that of the option set")
	sym.Assert(Test(g, f.name, "", o.name), "a field tests as set")
	sym.Assert(Value(f.name, o.name) == int(o.val), "an option has its number")
	sym.Assert(Get(h, f.name) == h&m>>(32-f.len-f.msb), "a field is read from its own bits")
	sym.Assert(Test(h, f.name, "", o.name) == (Get(h, f.name) == o.val), "a field tests as set exactly when it has the option")
	sym.Cover("set")
}

func Verif_C11_names() {
	sym.Bound("every header field; every 32-bit header")
	f := fields[sym.Choose("field", len(fields))]
	h := sym.U32("header")
	n := GetStr(h, f.name)
	v := Get(h, f.name)
	want := ""
	for _, o := range f.opts {
		if v == o.val {
			want = o.name
		}
	}
	sym.Assert(n == want, "a field's name is that of its number, empty when it has none")
	sym.Assert(Name(h, f.name) == want, "a field's name is that of its number, empty when it has none")
	sym.Cover("read")
}

func Verif_C11_unknown() {
	sym.Bound("every header field with an arbitrary option name of 0..4 (thorough: 0..7) bytes; an arbitrary field name of 0..4 (0..7) bytes; every header")
	n := 5
	if sym.Thorough() {
		n = 8
	}
	h := sym.U32("header")
	if sym.Choose("which", 2) == 0 {
		f := fields[sym.Choose("field", len(fields))]
		s := sym.String("option", sym.Choose("optlen", n))
		g, err := Set(h, f.name, s)
		sym.Assert((err == nil) == isOpt(f.opts, s), "an option is accepted exactly when the field has it")
		if err != nil {
			sym.Assert(g == h, "a refused option leaves the header unchanged")
			sym.Assert(sym.Not(Valid(f.name, s)), "a refused option is not valid")
			sym.Cover("option refused")
		} else {
			sym.Assert(Valid(f.name, s), "an accepted option is valid")
		}
		return
	}
	s := sym.String("name", sym.Choose("namelen", n))
	known := false
	for _, f := range fields {
		known = sym.Or(known, sym.EqStr(f.name, s))
	}
	sym.Assert(Good(s) == known, "a field is good exactly when it exists")
	sym.Assume(sym.Not(known))
	g, err := Set(h, s, "yes")
	sym.Assert(err != nil, "a field that does not exist is refused")
	sym.Assert(g == h, "a refused field leaves the header unchanged")
	sym.Cover("field refused")
}

func Verif_C11_frames() {
	sym.Bound("every pair of fields of each frame type, every option, every header")
	ft := frameNames[sym.Choose("frame", len(frameNames))]
	fs := frames[ft]
	a := fieldNamed(fs[sym.Choose("a", len(fs))])
	b := fieldNamed(fs[sym.Choose("b", len(fs))])
	listed := 0
	for _, v := range Values(ft) {
		if v == a.name {
			listed++
		}
	}
	sym.Assert(listed == 1, "a field of a frame type is listed for it")
	if a.name == b.name {
		return
	}
	o := a.opts[sym.Choose("option", len(a.opts))]
	h := sym.U32("header")
	g, err := Set(h, a.name, o.name)
	sym.Assert(err == nil, "a named option of a field is set")
	sym.Assert(Get(g, b.name) == Get(h, b.name), "setting a field of a frame leaves its other fields alone")
	sym.Cover("pair")
}

func Verif_C11_setflags() {
	sym.Bound("two fields of one frame type set together, every option, every header")
	ft := frameNames[sym.Choose("frame", len(frameNames))]
	fs := frames[ft]
	a := fieldNamed(fs[sym.Choose("a", len(fs))])
	b := fieldNamed(fs[sym.Choose("b", len(fs))])
	if a.name == b.name {
		return
	}
	oa := a.opts[sym.Choose("oa", len(a.opts))]
	ob := b.opts[sym.Choose("ob", len(b.opts))]
	h := sym.U32("header")
	g := SetFlags(h, map[string]string{a.name: oa.name, b.name: ob.name, "nosuch": "yes"})
	sym.Assert(Get(g, a.name) == oa.val, "every flag set together reads back")
	sym.Assert(Get(g, b.name) == ob.val, "every flag set together reads back")
	m := mask(a, 32) | mask(b, 32)
	sym.Assert(g&^m == h&^m, "flags set together change no other bit")
	sym.Cover("set together")
}

func Verif_C11_dirent() {
	sym.Bound("every directory entry field and option, and arbitrary option names of 0..4 bytes; every 16-bit header")
	f := dfields[sym.Choose("field", len(dfields))]
	h := sym.U16("header")
	m := uint16(mask(f, 16))
	sym.Assert(GetD(h, f.name) == h&m>>(16-f.len-f.msb), "a directory field is read from its own bits")
	if sym.Choose("which", 2) == 0 {
		o := f.opts[sym.Choose("option", len(f.opts))]
		g, err := SetD(h, f.name, o.name)
		sym.Assert(err == nil, "a named option of a directory field is set")
		sym.Assert(g&^m == h&^m, "setting a directory field changes no bit outside it")
		sym.Assert(GetD(g, f.name) == uint16(o.val), "a directory field reads back as set, by number")
		sym.Assert(GetDStr(g, f.name) == o.name, "a directory field reads back as set, by name")
		sym.Assert(NameD(g, f.name) == o.name, "a directory field's name is that of the option set")
		sym.Assert(TestD(g, f.name, o.name), "a directory field tests as set")
		for _, b := range dfields {
			if b.name != f.name {
				sym.Assert(GetD(g, b.name) == GetD(h, b.name), "setting a directory field leaves the others alone")
			}
		}
		sym.Cover("set")
		return
	}
	s := sym.String("option", sym.Choose("optlen", 5))
	g, err := SetD(h, f.name, s)
	sym.Assert((err == nil) == isOpt(f.opts, s), "a directory option is accepted exactly when the field has it")
	if err != nil {
		sym.Assert(g == h, "a refused option leaves the directory header unchanged")
		sym.Cover("refused")
	}
	g, err = SetD(h, "no"+s, "d16")
	sym.Assert(err != nil && g == h, "a directory field that does not exist is refused")
}

func Verif_C11_timestamp() {
	sym.Bound("every timestamp type and arbitrary type names of 0..4 bytes; every 8-bit header")
	h := sym.U8("header")
	if sym.Choose("which", 2) == 0 {
		o := ttypes[sym.Choose("option", len(ttypes))]
		g, err := SetT(h, o.name)
		sym.Assert(err == nil, "a named timestamp type is set")
		sym.Assert(g == uint8(o.val), "a timestamp header is its type")
		sym.Assert(GetT(g) == uint8(o.val), "a timestamp type reads back as set, by number")
		sym.Assert(GetTStr(g) == o.name, "a timestamp type reads back as set, by name")
		sym.Assert(NameT(g) == o.name, "a timestamp type's name is that of the option set")
		sym.Cover("set")
		return
	}
	s := sym.String("option", sym.Choose("optlen", 5))
	g, err := SetT(h, s)
	sym.Assert(err != nil && g == h, "a timestamp type that does not exist is refused")
	n := GetTStr(h)
	want := ""
	for _, o := range ttypes {
		if uint32(h) == o.val {
			want = o.name
		}
	}
	sym.Assert(n == want, "a timestamp type's name is that of its number, empty when it has none")
	sym.Cover("refused")
}
