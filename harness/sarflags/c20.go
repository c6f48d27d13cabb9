package sarflags

import (
	"strings"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

func strOf(name string, n int) string { return sym.String(name, n) }

func arbitraryCli() *Cliflags {
	c := new(Cliflags)
	c.V4Multicast = strOf("v4", 3)
	c.V6Multicast = strOf("v6", 3)
	c.Port = sym.Int("port")
	c.Timestamp = strOf("timestamp", 2)
	c.Timeout = Timeouts{Metadata: sym.Int("tmeta"), Request: sym.Int("treq"), Status: sym.Int("tstat"), Transfer: sym.Int("ttran"),
		Binterval: uint(sym.U64("tbint")), Datacounter: sym.Int("tdata")}
	c.Timezone = strOf("tz", 2)
	c.Prompt = strOf("prompt", 2)
	c.Ppad = sym.Int("ppad")
	c.Sardir = strOf("sardir", 3)
	c.Buffersize = sym.Int("bufsize")
	c.Bcount = uint(sym.U64("bcount"))
	c.Global = map[string]string{}
	n := sym.Choose("globals", 4)
	for i, g := range []string{"csumtype", "descriptor", "udplite"} {
		if i < n {
			c.Global[g] = strOf("g."+g, 2)
		}
	}
	return c
}

// record copies c by hand, setting by setting.
func record(c *Cliflags) *Cliflags {
	o := &Cliflags{V4Multicast: c.V4Multicast, V6Multicast: c.V6Multicast, Port: c.Port, Timestamp: c.Timestamp,
		Timeout:  Timeouts{Metadata: c.Timeout.Metadata, Request: c.Timeout.Request, Status: c.Timeout.Status, Transfer: c.Timeout.Transfer, Binterval: c.Timeout.Binterval, Datacounter: c.Timeout.Datacounter},
		Timezone: c.Timezone, Prompt: c.Prompt, Ppad: c.Ppad, Sardir: c.Sardir, Buffersize: c.Buffersize, Bcount: c.Bcount,
		Global: map[string]string{}}
	for k, v := range c.Global {
		o.Global[k] = v
	}
	return o
}

func sameCli(a, b *Cliflags) bool {
	if len(a.Global) != len(b.Global) {
		return false
	}
	r := sym.And(sym.EqStr(a.V4Multicast, b.V4Multicast), sym.EqStr(a.V6Multicast, b.V6Multicast), a.Port == b.Port,
		sym.EqStr(a.Timestamp, b.Timestamp), a.Timeout.Metadata == b.Timeout.Metadata, a.Timeout.Request == b.Timeout.Request,
		a.Timeout.Status == b.Timeout.Status, a.Timeout.Transfer == b.Timeout.Transfer, a.Timeout.Binterval == b.Timeout.Binterval,
		a.Timeout.Datacounter == b.Timeout.Datacounter, sym.EqStr(a.Timezone, b.Timezone), sym.EqStr(a.Prompt, b.Prompt),
		a.Ppad == b.Ppad, sym.EqStr(a.Sardir, b.Sardir), a.Buffersize == b.Buffersize, a.Bcount == b.Bcount)
	for k, v := range a.Global {
		w, ok := b.Global[k]
		r = sym.And(r, ok, sym.EqStr(v, w))
	}
	return r
}

func scribble(c *Cliflags) {
	c.V4Multicast, c.V6Multicast, c.Timestamp, c.Timezone, c.Prompt, c.Sardir = "a", "b", "c", "d", "e", "f"
	c.Port++
	c.Timeout.Metadata++
	c.Timeout.Request++
	c.Timeout.Status++
	c.Timeout.Transfer++
	c.Timeout.Binterval++
	c.Timeout.Datacounter++
	c.Ppad++
	c.Buffersize++
	c.Bcount++
	c.Global["udplite"] = "changed"
	c.Global["new"] = "added"
	delete(c.Global, "csumtype")
}

func Verif_C19_copy() {
	sym.Bound("every value of every numeric setting, arbitrary bytes (2 or 3) in every text setting, 0..3 global flags with arbitrary values")
	c := arbitraryCli()
	e := record(c)
	d, err := c.CopyCliflags()
	sym.Assert((err == nil) == (len(c.Global) > 0), "settings are copied exactly when there are global flags")
	if err != nil {
		sym.Cover("refused")
		return
	}
	sym.Assert(d != c, "the copy is another structure")
	sym.Assert(sym.And(sameCli(c, e), sameCli(d, e)), "the copy equals the original in every setting")
	f, err := d.CopyCliflags()
	sym.Assert(err == nil && f != d && f != c && sameCli(f, e), "a copy of the copy equals the original in every setting")
	all := []*Cliflags{c, d, f}
	k := sym.Choose("change", 3)
	scribble(all[k])
	sym.Assert(sym.And(sameCli(all[(k+1)%3], e), sameCli(all[(k+2)%3], e)), "a change to one does not show in the other")
	sym.Cover("copied")
}

func Verif_C19_config() {
	sym.Bound("the settings of the repository's configuration")
	d, err := Cliflag.CopyCliflags()
	if err != nil {
		sym.Fail("the configured settings are copied")
		return
	}
	sym.Assert(sameCli(Cliflag, d), "the copy equals the configured settings")
	sym.Cover("copied")
}

// A flag list in the making: names are distinct fields, options are symbolic
// text constrained to be an option of the field.
type fl struct{ name, opt string }

var c20fields = []string{"udplite", "descriptor", "csumtype", "eod"}

// anyOpt: an arbitrary option of field n
func anyOpt(name, n string) string {
	f := fieldNamed(n)
	lens := map[int]bool{}
	var ls []int
	for _, o := range f.opts {
		if !lens[len(o.name)] {
			lens[len(o.name)] = true
			ls = append(ls, len(o.name))
		}
	}
	s := sym.String(name, ls[sym.Choose(name+".len", len(ls))])
	sym.Assume(isOpt(f.opts, s))
	return s
}

// anyList: a list of up to max flags, with distinct names in any order
func anyList(max int) []fl {
	var l []fl
	used := map[string]bool{}
	n := sym.Choose("flags", max+1)
	for i := 0; i < n; i++ {
		k := c20fields[sym.Choose("flag"+string(rune('0'+i)), len(c20fields))]
		if used[k] {
			sym.Assume(false)
		}
		used[k] = true
		l = append(l, fl{k, anyOpt("opt"+string(rune('0'+i)), k)})
	}
	return l
}

func text(l []fl) string {
	s := ""
	for i, f := range l {
		if i > 0 {
			s += ","
		}
		s += f.name + "=" + f.opt
	}
	return s
}

func find(l []fl, n string) string {
	for _, f := range l {
		if f.name == n {
			return f.opt
		}
	}
	return ""
}

func Verif_C20_edit() {
	sym.Bound("flag strings of 0..2 (thorough: 0..3) distinct flags of four fields in any order with any options; any flag replaced or added with any option, or with an arbitrary 2-byte option name")
	c20edit()
}

func c20edit() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	l := anyList(max)
	s := text(l)
	n := c20fields[sym.Choose("edit", len(c20fields))]
	for _, f := range c20fields {
		sym.Assert(sym.EqStr(FlagValue(s, f), find(l, f)), "a flag reads as its option, an absent one as empty")
	}
	for _, f := range []string{"desc", "criptor", "lite", "sum", "o", ""} {
		sym.Assert(FlagValue(s, f) == "", "a flag that is a part of another's name is absent")
	}
	o := ""
	valid := true
	if sym.Choose("validity", 2) == 0 {
		o = anyOpt("new", n)
	} else {
		o = sym.String("new", 2)
		sym.Assume(sym.Not(isOpt(fieldNamed(n).opts, o)))
		valid = false
	}
	present := false
	for _, f := range l {
		present = present || f.name == n
	}
	var want []fl
	for _, f := range l {
		if f.name == n {
			f.opt = o
		}
		want = append(want, f)
	}
	if !present {
		want = append(want, fl{n, o})
	}
	got := ReplaceFlag(s, n, o)
	if valid {
		sym.Assert(sym.EqStr(got, text(want)), "replacing a flag gives it the new option and keeps every other flag's option and order")
		sym.Cover("replaced")
	} else {
		for _, f := range l {
			if f.name != n {
				sym.Assert(sym.EqStr(FlagValue(got, f.name), f.opt), "an invalid replacement leaves the other flags alone")
			}
		}
		sym.Assert(sym.Not(sym.EqStr(FlagValue(got, n), o)), "an invalid option is never introduced")
		sym.Cover("invalid")
	}
	if !present {
		added := AddFlag(s, n, o)
		if valid {
			sym.Assert(sym.EqStr(added, text(want)), "adding a flag appends it and keeps every other flag's option and order")
			sym.Cover("added")
		} else {
			sym.Assert(sym.EqStr(added, s), "an invalid flag is not added")
		}
	}
	sym.Assert(sym.EqStr(AddFlag(s, "nosuch", "yes"), s), "an unknown flag is not added")
	sym.Assert(sym.EqStr(ReplaceFlag(s, "nosuch", "yes"), s), "an unknown flag is not introduced by a replacement")
}

// Names that begin alike.
func Verif_C20_alike() {
	was := c20fields
	defer func() { c20fields = was }()
	c20fields = [][]string{{"freespace", "freespaced", "stream"}, {"csumtype", "csumlen", "progress"}, {"reqtstamp", "reqtype", "reqstatus"}, {"reqholes", "allholes", "errcode"}}[sym.Choose("names", 4)]
	sym.Bound("flag strings of 0..2 (thorough: 0..3) distinct flags of three fields whose names begin or end alike, in any order with any options; any flag replaced or added with any option, or with an arbitrary 2-byte option name")
	c20edit()
}

func Verif_C20_dirent() {
	sym.Bound("directory flag strings of 0..2 distinct flags in any order with any options; any flag replaced or added with any option")
	names := []string{"property", "descriptor"}
	var l []fl
	n := sym.Choose("flags", 3)
	first := sym.Choose("first", 2)
	for i := 0; i < n; i++ {
		f := dfields[1+(first+i)%2]
		o := f.opts[sym.Choose("opt"+string(rune('0'+i)), len(f.opts))]
		l = append(l, fl{f.name, o.name})
	}
	e := names[sym.Choose("edit", 2)]
	s := text(l)
	o := sym.String("new", []int{3, 4, 10, 15}[sym.Choose("newlen", 4)])
	var df field
	for _, f := range dfields {
		if f.name == e {
			df = f
		}
	}
	present := false
	var want []fl
	for _, f := range l {
		if f.name == e {
			f.opt = o
			present = true
		}
		want = append(want, f)
	}
	if !present {
		want = append(want, fl{e, o})
	}
	sym.Assume(isOpt(df.opts, o))
	sym.Assert(sym.EqStr(ReplaceFlagD(s, e, o), text(want)), "replacing a directory flag gives it the new option and keeps the other")
	if !present {
		sym.Assert(sym.EqStr(AddFlagD(s, e, o), text(want)), "adding a directory flag appends it")
	}
	sym.Assert(sym.EqStr(AddFlagD(s, e, "no"+o), s), "an invalid directory option is not added")
	sym.Cover("edited")
}

func Verif_C20_any() {
	n := 6
	if sym.Thorough() {
		n = 9
	}
	sym.Bound("arbitrary text of 0..5 (thorough: 0..8) bytes as a flag string: reading and replacing end normally")
	s := sym.String("flags", sym.Choose("len", n))
	v := FlagValue(s, "eod")
	if !strings.Contains(strings.ReplaceAll(s, " ", ""), "eod=") {
		sym.Assert(v == "", "reading a flag that is not there gives the empty string")
	}
	r := ReplaceFlag(s, "eod", "yes")
	sym.Assert(FlagValue(r, "eod") == "yes", "a replaced flag reads back as the new option")
	sym.Cover("any")
}

func Verif_C20_global() {
	max := 2
	if sym.Thorough() {
		max = 3
	}
	sym.Bound("global settings of up to two (thorough: three) flags with any options, any iteration order, each frame type")
	sym.MapOrder(true)
	c := &Cliflags{Global: map[string]string{}}
	var all []fl
	n := 0
	for _, g := range []string{"udplite", "descriptor", "csumtype", "stream"} {
		if sym.Choose("has."+g, 2) == 1 {
			if n++; n > max {
				sym.Assume(false)
			}
			o := anyOpt("g."+g, g)
			c.Global[g] = o
			all = append(all, fl{g, o})
		}
	}
	ft := frameNames[sym.Choose("frame", len(frameNames))]
	got := Setglobal(ft, c)
	// the flags that apply, in any order, each once
	m := 0
	for _, f := range all {
		applies := false
		for _, x := range frames[ft] {
			applies = applies || x == f.name
		}
		if applies {
			m++
			sym.Assert(sym.EqStr(FlagValue(got, f.name), f.opt), "an applicable setting is among the flags with its option")
		} else {
			sym.Assert(FlagValue(got, f.name) == "", "a setting that does not apply is not among the flags")
		}
	}
	parts := 0
	if got != "" {
		parts = len(strings.Split(got, ","))
	}
	sym.Assert(parts == m, "no flag is added or repeated")
	sym.Cover("global")
}

func Verif_C20_config() {
	sym.Bound("the nine configured global settings, one of them with any option, each frame type")
	c, _ := Cliflag.CopyCliflags()
	names := []string{"descriptor", "csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite"}
	k := names[sym.Choose("setting", len(names))]
	c.Global[k] = anyOpt("option", k)
	ft := frameNames[sym.Choose("frame", len(frameNames))]
	got := Setglobal(ft, c)
	m := 0
	for _, x := range names {
		applies := false
		for _, f := range frames[ft] {
			applies = applies || x == f
		}
		if applies {
			m++
			sym.Assert(sym.EqStr(FlagValue(got, x), c.Global[x]), "an applicable setting is among the flags with its option")
		} else {
			sym.Assert(FlagValue(got, x) == "", "a setting that does not apply is not among the flags")
		}
	}
	sym.Assert(len(strings.Split(got, ",")) == m, "no flag is added or repeated")
	sym.Cover("global")
}
