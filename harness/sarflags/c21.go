package sarflags

import (
	"encoding/json"
	"os"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

// safe text: bytes that stand for themselves in JSON
func jtext(name string, n int) string {
	s := sym.String(name, n)
	for i := 0; i < n; i++ {
		sym.Assume(sym.And(s[i] >= 0x20, s[i] < 0x7f, s[i] != '"', s[i] != '\\'))
	}
	return s
}

// number of n digits without a leading zero, and its value
func jnum(name string, n int) (string, uint64) {
	s := sym.String(name, n)
	v := uint64(0)
	for i := 0; i < n; i++ {
		lo := byte('0')
		if i == 0 {
			lo = '1'
		}
		sym.Assume(sym.And(s[i] >= lo, s[i] <= '9'))
		v = v*10 + uint64(s[i]-'0')
	}
	return s, v
}

const flagDefs = `"descriptor":{"len":2,"msb":8,"options":{"d16":0,"d32":1},"frametypes":["beacon","data"]},
"csumtype":{"len":4,"msb":28,"options":{"none":0,"md5":2}},"freespace":{"len":1,"msb":17,"options":{"no":0,"yes":1}},
"txwilling":{"len":2,"msb":12,"options":{"no":0,"yes":3}},"rxwilling":{"len":2,"msb":14,"options":{"no":0,"yes":3}},
"stream":{"len":1,"msb":11,"options":{"no":0,"yes":1}},"reqtstamp":{"len":1,"msb":12,"options":{"no":0,"yes":1}},
"reqstatus":{"len":1,"msb":15,"options":{"no":0,"yes":1}},"udplite":{"len":1,"msb":16,"options":{"no":0,"yes":1}}`

const globalDefs = `"descriptor":"d32","csumtype":"md5","freespace":"yes","txwilling":"no","rxwilling":"yes","stream":"no","reqtstamp":"yes","reqstatus":"no","udplite":"yes"`

func load(text string) (*Cliflags, error) {
	if err := os.WriteFile("c.json", []byte(text), 0644); err != nil {
		panic(err)
	}
	c := new(Cliflags)
	err := c.ReadConfig("c.json")
	return c, err
}

func Verif_C21_scalars() {
	sym.Bound("a configuration with arbitrary 1..4 and 9 digit numbers and arbitrary printable 1..3 byte texts in every scalar setting; SARDIR absent or arbitrary")
	os.Setenv("SARDIR", "")
	n := 1 + sym.Choose("digits", 5)
	if n == 5 {
		n = 9
	}
	v4, v6, ts, tz, dir, pr := jtext("v4", 3), jtext("v6", 2), jtext("ts", 3), jtext("tz", 1), jtext("dir", 3), jtext("pr", 2)
	port, portv := jnum("port", n)
	ppad, ppadv := jnum("ppad", n)
	buf, bufv := jnum("buf", n)
	bc, bcv := jnum("bc", n)
	tm, tmv := jnum("tm", n)
	tr, trv := jnum("tr", n)
	tst, tstv := jnum("tst", n)
	tt, ttv := jnum("tt", n)
	tb, tbv := jnum("tb", n)
	td, tdv := jnum("td", n)
	env := ""
	if sym.Choose("env", 2) == 1 {
		env = jtext("envdir", 2)
		os.Setenv("SARDIR", env)
	}
	c, err := load(`{"v4multicast":"` + v4 + `","v6multicast":"` + v6 + `","udpport":` + port + `,"timestamp":"` + ts + `","timezone":"` + tz +
		`","sardir":"` + dir + `","prompt":"` + pr + `","ppad":` + ppad + `,"buffersize":` + buf + `,"bcount":` + bc +
		`,"timeout":{"metadata":` + tm + `,"request":` + tr + `,"status":` + tst + `,"transfer":` + tt + `,"binterval":` + tb + `,"datacounter":` + td + `},` +
		globalDefs + `,"flags":{` + flagDefs + `},"_comment":"x"}`)
	os.Setenv("SARDIR", "")
	if err != nil {
		sym.Fail("a complete configuration is accepted")
		return
	}
	sym.Assert(sym.And(sym.EqStr(c.V4Multicast, v4), sym.EqStr(c.V6Multicast, v6)), "the multicast addresses are those of the file")
	sym.Assert(c.Port == int(portv), "the port is that of the file")
	sym.Assert(sym.And(sym.EqStr(c.Timestamp, ts), sym.EqStr(c.Timezone, tz), sym.EqStr(c.Prompt, pr)), "the texts are those of the file")
	sym.Assert(sym.And(c.Ppad == int(ppadv), c.Buffersize == int(bufv), c.Bcount == uint(bcv)), "the numbers are those of the file")
	sym.Assert(sym.And(c.Timeout.Metadata == int(tmv), c.Timeout.Request == int(trv), c.Timeout.Status == int(tstv), c.Timeout.Transfer == int(ttv),
		c.Timeout.Binterval == uint(tbv), c.Timeout.Datacounter == int(tdv)), "the timeouts are those of the file")
	if env != "" {
		sym.Assert(sym.EqStr(c.Sardir, env), "the environment's directory takes precedence")
		sym.Cover("environment")
	} else {
		sym.Assert(sym.EqStr(c.Sardir, dir), "the directory is that of the file")
	}
	want := map[string]string{"descriptor": "d32", "csumtype": "md5", "freespace": "yes", "txwilling": "no", "rxwilling": "yes", "stream": "no", "reqtstamp": "yes", "reqstatus": "no", "udplite": "yes"}
	sym.Assert(len(c.Global) == len(want), "the global flags are those of the file")
	for k, v := range want {
		sym.Assert(c.Global[k] == v, "each global flag is that of the file")
	}
	sym.Cover("loaded")
}

func Verif_C21_defaults() {
	sym.Bound("each default flag with an arbitrary printable option of 2 or 3 bytes")
	os.Setenv("SARDIR", "")
	type gd struct {
		name string
		opts []string
	}
	yn := []string{"no", "yes"}
	gs := []gd{{"descriptor", []string{"d16", "d32"}}, {"csumtype", []string{"none", "md5"}}, {"freespace", yn}, {"txwilling", yn}, {"rxwilling", yn},
		{"stream", yn}, {"reqtstamp", yn}, {"reqstatus", yn}, {"udplite", yn}}
	g := gs[sym.Choose("flag", len(gs))]
	v := jtext("option", 2+sym.Choose("optlen", 2))
	text := `{"flags":{` + flagDefs + `}`
	for _, x := range gs {
		if x.name == g.name {
			text += `,"` + x.name + `":"` + v + `"`
		} else {
			text += `,"` + x.name + `":"` + x.opts[1] + `"`
		}
	}
	c, err := load(text + "}")
	valid := false
	for _, o := range g.opts {
		valid = sym.Or(valid, sym.EqStr(o, v))
	}
	sym.Assert((err == nil) == valid, "a configuration is refused exactly when a default flag is not a valid option")
	if err == nil {
		sym.Assert(sym.EqStr(c.Global[g.name], v), "the default flag is that of the file")
		sym.Cover("accepted")
	} else {
		sym.Cover("refused")
	}
}

func Verif_C21_definitions() {
	sym.Bound("flag, directory flag and timestamp definitions with arbitrary one or two digit positions and numbers and arbitrary printable names of 1..3 bytes; a command with arbitrary usage and help")
	os.Setenv("SARDIR", "")
	n := 1 + sym.Choose("digits", 2)
	fn, on, dn, don, tn, cn := jtext("fn", 3), jtext("on", 2), jtext("dn", 2), jtext("don", 2), jtext("tn", 2), jtext("cn", 2)
	us, he, ft := jtext("us", 2), jtext("he", 2), jtext("ft", 2)
	fl, flv := jnum("fl", n)
	fm, fmv := jnum("fm", n)
	fo, fov := jnum("fo", n)
	dl, dlv := jnum("dl", n)
	dm, dmv := jnum("dm", n)
	do, dov := jnum("do", n)
	tl, tlv := jnum("tl", n)
	tm, tmv := jnum("tm", n)
	to, tov := jnum("to", n)
	_, err := load(`{"flags":{"x` + fn + `":{"frametypes":["` + ft + `","data"],"len":` + fl + `,"msb":` + fm + `,"options":{"` + on + `":` + fo + `}},` + flagDefs + `},` +
		`"direntflags":{"` + dn + `":{"len":` + dl + `,"msb":` + dm + `,"options":{"` + don + `":` + do + `}}},` +
		`"timestamps":{"len":` + tl + `,"msb":` + tm + `,"options":{"` + tn + `":` + to + `}},` +
		`"frameflags":{"` + ft + `":["` + fn + `","` + dn + `"]},` +
		`"commands":{"` + cn + `":{"usage":"` + us + `","help":"` + he + `"}},` + globalDefs + `}`)
	if err != nil {
		sym.Fail("a complete configuration is accepted")
		return
	}
	f, ok := Flags["x"+fn]
	sym.Assert(ok && len(f.Options) == 1 && len(f.Frametypes) == 2 && len(Flags) == 10, "the flags are those of the file")
	o, ok := f.Options[on]
	sym.Assert(sym.And(ok, f.Len == uint32(flv), f.Msb == uint32(fmv), o == uint32(fov), sym.EqStr(f.Frametypes[0], ft)), "a flag's definition is that of the file")
	d, ok := DirentFlags[dn]
	sym.Assert(ok && len(d.Options) == 1 && len(DirentFlags) == 1, "the directory flags are those of the file")
	p, ok := d.Options[don]
	sym.Assert(sym.And(ok, d.Len == uint16(dlv), d.Msb == uint16(dmv), p == uint16(dov)), "a directory flag's definition is that of the file")
	t, ok := TimeStamps.Options[tn]
	sym.Assert(sym.And(ok, len(TimeStamps.Options) == 1, TimeStamps.Len == uint8(tlv), TimeStamps.Msb == uint8(tmv), t == uint8(tov)), "the timestamp definition is that of the file")
	ff := Frameflags[ft]
	sym.Assert(len(ff) == 2 && len(Frameflags) == 1, "the flags of a frame type are those of the file")
	sym.Assert(sym.And(sym.EqStr(ff[0], fn), sym.EqStr(ff[1], dn)), "the flags of a frame type are those of the file, in order")
	cm, ok := Commands[cn]
	sym.Assert(sym.And(ok, len(Commands) == 1, sym.EqStr(cm.Usage, us), sym.EqStr(cm.Help, he)), "a command's usage and help are those of the file")
	sym.Cover("defined")
}

var c21shapes = []struct{ pre, typ, post string }{
	{`"v4multicast":`, "s", ""}, {`"v6multicast":`, "s", ""}, {`"udpport":`, "n", ""}, {`"descriptor":`, "s", ""}, {`"csumtype":`, "s", ""},
	{`"freespace":`, "s", ""}, {`"txwilling":`, "s", ""}, {`"rxwilling":`, "s", ""}, {`"stream":`, "s", ""}, {`"reqtstamp":`, "s", ""},
	{`"reqstatus":`, "s", ""}, {`"udplite":`, "s", ""}, {`"timestamp":`, "s", ""}, {`"timezone":`, "s", ""}, {`"sardir":`, "s", ""},
	{`"prompt":`, "s", ""}, {`"ppad":`, "n", ""}, {`"buffersize":`, "n", ""}, {`"bcount":`, "n", ""}, {`"timeout":`, "o", ""},
	{`"timeout":{"metadata":`, "n", "}"}, {`"timeout":{"request":`, "n", "}"}, {`"timeout":{"status":`, "n", "}"}, {`"timeout":{"transfer":`, "n", "}"},
	{`"timeout":{"binterval":`, "n", "}"}, {`"timeout":{"datacounter":`, "n", "}"},
	{`"commands":`, "o", ""}, {`"commands":{"x":`, "o", "}"}, {`"commands":{"x":{"help":`, "s", "}}"}, {`"commands":{"x":{"usage":`, "s", "}}"},
	{`"frameflags":`, "o", ""}, {`"frameflags":{"x":`, "a", "}"}, {`"frameflags":{"x":[`, "s", "]}"},
	{`"flags":`, "o", ""}, {`"flags":{"x":`, "o", "}"}, {`"flags":{"x":{"len":`, "n", "}}"}, {`"flags":{"x":{"msb":`, "n", "}}"},
	{`"flags":{"x":{"frametypes":`, "a", "}}"}, {`"flags":{"x":{"frametypes":[`, "s", "]}}"}, {`"flags":{"x":{"options":`, "o", "}}"}, {`"flags":{"x":{"options":{"y":`, "n", "}}}"},
	{`"direntflags":`, "o", ""}, {`"direntflags":{"x":`, "o", "}"}, {`"direntflags":{"x":{"len":`, "n", "}}"}, {`"direntflags":{"x":{"msb":`, "n", "}}"},
	{`"direntflags":{"x":{"options":`, "o", "}}"}, {`"direntflags":{"x":{"options":{"y":`, "n", "}}}"},
	{`"timestamps":`, "o", ""}, {`"timestamps":{"len":`, "n", "}"}, {`"timestamps":{"msb":`, "n", "}"}, {`"timestamps":{"options":`, "o", "}"}, {`"timestamps":{"options":{"y":`, "n", "}}"},
}

func Verif_C21_shape() {
	sym.Bound("each setting and definition, at each level, given a value of every other JSON type (with an arbitrary printable text or number), and files of another shape altogether")
	os.Setenv("SARDIR", "")
	sh := c21shapes[sym.Choose("where", len(c21shapes))]
	typs := []string{"s", "n", "o", "a", "b", "z"}
	t := typs[sym.Choose("type", len(typs))]
	if t == sh.typ {
		return
	}
	v := ""
	switch t {
	case "s":
		v = `"` + jtext("text", 2) + `"`
	case "n":
		v, _ = jnum("number", 2)
	case "o":
		v = `{"` + jtext("text", 1) + `":1}`
	case "a":
		v = `["` + jtext("text", 1) + `"]`
	case "b":
		v = "true"
	case "z":
		v = "null"
	}
	_, err := load("{" + sh.pre + v + sh.post + "}")
	sym.Assert(err != nil, "a configuration of the wrong shape is refused")
	sym.Cover("wrong shape")
}

func Verif_C21_bytes() {
	n := 5
	if sym.Thorough() {
		n = 6
	}
	sym.Bound("every file of 0..4 (thorough: 0..5) bytes; a missing file")
	c := new(Cliflags)
	sym.Assert(c.ReadConfig("nosuch.json") != nil, "a missing file is refused")
	_, err := load(sym.String("file", sym.Choose("len", n)))
	sym.Assert(err != nil, "a file without the settings is refused")
	sym.Cover("refused")
}

func Verif_C21_cut() {
	sym.Bound("the repository's configuration cut short at 64 places")
	full := string(sym.RepoFile("saratoga/saratoga.json"))
	k := (len(full) - 40) * sym.Choose("cut", 64) / 64
	_, err := load(full[:k])
	sym.Assert(err != nil, "an incomplete file is refused")
	sym.Cover("cut")
}

// c21num: a number of the file
func c21num(v any) uint64 { return uint64(v.(float64)) }

func Verif_C21_shipped() {
	sym.Bound("the repository's configuration: every setting, flag, directory flag, timestamp and command it contains")
	os.Setenv("SARDIR", "")
	sym.Assert(setupErr == nil, "the repository's configuration is accepted")
	c, err := load(string(sym.RepoFile("saratoga/saratoga.json")))
	if err != nil {
		sym.Fail("the repository's configuration is accepted")
		return
	}
	var f map[string]any
	if err := json.Unmarshal(sym.RepoFile("saratoga/saratoga.json"), &f); err != nil {
		panic(err)
	}
	texts := map[string]string{"v4multicast": c.V4Multicast, "v6multicast": c.V6Multicast, "timestamp": c.Timestamp, "timezone": c.Timezone, "sardir": c.Sardir, "prompt": c.Prompt}
	for _, g := range []string{"descriptor", "csumtype", "freespace", "txwilling", "rxwilling", "stream", "reqtstamp", "reqstatus", "udplite"} {
		texts[g] = c.Global[g]
	}
	for k, v := range texts {
		if w, ok := f[k]; ok {
			sym.Assert(w.(string) == v, "the texts are those of the file")
		}
	}
	nums := map[string]uint64{"udpport": uint64(c.Port), "ppad": uint64(c.Ppad), "buffersize": uint64(c.Buffersize), "bcount": uint64(c.Bcount)}
	for k, v := range nums {
		if w, ok := f[k]; ok {
			sym.Assert(c21num(w) == v, "the numbers are those of the file")
		}
	}
	for k, v := range f["timeout"].(map[string]any) {
		t := map[string]uint64{"metadata": uint64(c.Timeout.Metadata), "request": uint64(c.Timeout.Request), "status": uint64(c.Timeout.Status), "transfer": uint64(c.Timeout.Transfer),
			"binterval": uint64(c.Timeout.Binterval), "datacounter": uint64(c.Timeout.Datacounter)}
		if w, ok := t[k]; ok {
			sym.Assert(c21num(v) == w, "the timeouts are those of the file")
		}
	}
	cmds := f["commands"].(map[string]any)
	sym.Assert(len(Commands) == len(cmds), "the commands are those of the file")
	for k, v := range cmds {
		d := v.(map[string]any)
		sym.Assert(Commands[k].Usage == d["usage"].(string) && Commands[k].Help == d["help"].(string), "a command's usage and help are those of the file")
	}
	fl := f["flags"].(map[string]any)
	sym.Assert(len(Flags) == len(fl), "the flags are those of the file")
	for k, v := range fl {
		d := v.(map[string]any)
		o, ft := d["options"].(map[string]any), d["frametypes"].([]any)
		x, ok := Flags[k]
		sym.Assert(ok && uint64(x.Len) == c21num(d["len"]) && uint64(x.Msb) == c21num(d["msb"]) && len(x.Options) == len(o) && len(x.Frametypes) == len(ft), "a flag's definition is that of the file")
		for n, w := range o {
			y, ok := x.Options[n]
			sym.Assert(ok && uint64(y) == c21num(w), "a flag's options are those of the file")
		}
		for i := range ft {
			sym.Assert(i < len(x.Frametypes) && x.Frametypes[i] == ft[i].(string), "a flag's frame types are those of the file")
		}
	}
	df := f["direntflags"].(map[string]any)
	sym.Assert(len(DirentFlags) == len(df), "the directory flags are those of the file")
	for k, v := range df {
		d := v.(map[string]any)
		o := d["options"].(map[string]any)
		x, ok := DirentFlags[k]
		sym.Assert(ok && uint64(x.Len) == c21num(d["len"]) && uint64(x.Msb) == c21num(d["msb"]) && len(x.Options) == len(o), "a directory flag's definition is that of the file")
		for n, w := range o {
			y, ok := x.Options[n]
			sym.Assert(ok && uint64(y) == c21num(w), "a directory flag's options are those of the file")
		}
	}
	ts := f["timestamps"].(map[string]any)
	sym.Assert(uint64(TimeStamps.Len) == c21num(ts["len"]) && uint64(TimeStamps.Msb) == c21num(ts["msb"]) && len(TimeStamps.Options) == len(ts["options"].(map[string]any)), "the timestamp definition is that of the file")
	for n, w := range ts["options"].(map[string]any) {
		y, ok := TimeStamps.Options[n]
		sym.Assert(ok && uint64(y) == c21num(w), "the timestamp types are those of the file")
	}
	if ff, ok := f["frameflags"].(map[string]any); ok {
		sym.Assert(len(Frameflags) == len(ff), "the frame types are those of the file")
		for k, v := range ff {
			l := v.([]any)
			sym.Assert(len(Frameflags[k]) == len(l), "the flags of a frame type are those of the file")
			for i := range l {
				sym.Assert(i < len(Frameflags[k]) && Frameflags[k][i] == l[i].(string), "the flags of a frame type are those of the file, in order")
			}
		}
	}
	sym.Cover("loaded")
}
