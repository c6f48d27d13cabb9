package sarwin

import (
	"strconv"
	"strings"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/data"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/timestamp"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
	"github.com/jroimartin/gocui"
)

// c18set: every setting, in a form that can be compared.
type c18set struct {
	global                                       [10]string
	v4, v6, ts, tz, prompt, dir                  string
	port, ppad, buf, meta, req, stat, tran, dctr int
	bint, bcount                                 uint
	n                                            int
}

var c18globals = []string{"csumtype", "descriptor", "freespace", "reqtstamp", "rxwilling", "txwilling", "stream", "udplite", "reqstatus", "version"}

const (
	gCsum = iota
	gDesc
	gFree
	gReqts
	gRx
	gTx
	gStream
)

func c18snap() (s c18set) {
	c := sarflags.Cliflag
	for i, g := range c18globals {
		s.global[i] = c.Global[g]
	}
	s.n = len(c.Global)
	s.v4, s.v6, s.ts, s.tz, s.prompt, s.dir = c.V4Multicast, c.V6Multicast, c.Timestamp, c.Timezone, c.Prompt, c.Sardir
	s.port, s.ppad, s.buf = c.Port, c.Ppad, c.Buffersize
	s.meta, s.req, s.stat, s.tran, s.dctr = c.Timeout.Metadata, c.Timeout.Request, c.Timeout.Status, c.Timeout.Transfer, c.Timeout.Datacounter
	s.bint, s.bcount = c.Timeout.Binterval, c.Bcount
	return
}

func c18same(a, b c18set) bool {
	r := sym.And(a.port == b.port, a.ppad == b.ppad, a.buf == b.buf, a.meta == b.meta, a.req == b.req, a.stat == b.stat, a.tran == b.tran, a.dctr == b.dctr, a.bint == b.bint, a.bcount == b.bcount, a.n == b.n)
	for i := range a.global {
		r = sym.And(r, sym.EqStr(a.global[i], b.global[i]))
	}
	return sym.And(r, sym.EqStr(a.v4, b.v4), sym.EqStr(a.v6, b.v6), sym.EqStr(a.ts, b.ts), sym.EqStr(a.tz, b.tz), sym.EqStr(a.prompt, b.prompt), sym.EqStr(a.dir, b.dir))
}

// c18before: the settings before the command: those of the configuration, or
// others where each command has something to change.
func c18before(k int, word string) {
	c := sarflags.Cliflag
	c.Timeout.Binterval = 0 // no waiting between beacons
	if word == "interval" {
		c.Timeout.Binterval = 9
	}
	c.Bcount = 2
	if k == 0 {
		return
	}
	c.Global["csumtype"], c.Global["descriptor"], c.Global["freespace"], c.Global["reqtstamp"] = "md5", "d32", "no", "no"
	c.Global["rxwilling"], c.Global["txwilling"], c.Global["stream"] = "no", "capable", "yes"
	c.Timestamp, c.Timezone = "epoch2000_32", "local"
	c.Timeout.Metadata, c.Timeout.Request, c.Timeout.Status, c.Timeout.Transfer, c.Timeout.Datacounter = 60, 61, 62, 63, 64
}

// c18want: the settings a command line leaves, as the usage texts have it.
// dontcare is the timeout that "off" sets: the texts do not say to what.
func c18want(v []string, s c18set) (w c18set, dontcare string) {
	w = s
	if len(v) < 2 {
		return
	}
	pick := func(arg string, to *string, pairs ...string) {
		for i := 0; i < len(pairs); i += 2 {
			if arg == pairs[i] {
				*to = pairs[i+1]
			}
		}
	}
	if len(v) == 2 {
		a := v[1]
		switch v[0] {
		case "checksum":
			pick(a, &w.global[gCsum], "off", "none", "none", "none", "crc32", "crc32", "md5", "md5", "sha1", "sha1")
		case "descriptor":
			pick(a, &w.global[gDesc], "auto", "d64", "d16", "d16", "d32", "d32", "d64", "d64")
		case "freespace":
			pick(a, &w.global[gFree], "yes", "yes", "no", "no")
		case "reqtstamp":
			pick(a, &w.global[gReqts], "yes", "yes", "no", "no")
		case "stream":
			pick(a, &w.global[gStream], "yes", "yes", "no", "no")
		case "rxwilling":
			pick(a, &w.global[gRx], "on", "yes", "off", "no", "capable", "capable")
		case "txwilling":
			pick(a, &w.global[gTx], "on", "yes", "off", "no", "capable", "capable")
		case "timezone":
			pick(a, &w.tz, "utc", "utc", "local", "local")
		case "timestamp":
			pick(a, &w.global[gReqts], "off", "no", "32", "yes", "64", "yes", "32_32", "yes", "64_32", "yes", "32_y2k", "yes", "local", "yes")
			pick(a, &w.ts, "32", "posix32", "64", "posix64", "32_32", "posix32_32", "64_32", "posix64_32", "32_y2k", "epoch2000_32", "local", "localinterp")
		case "bcount":
			if n, err := strconv.Atoi(a); err == nil && n >= 0 {
				w.bcount = uint(n)
			}
		case "interval":
			if a == "off" {
				w.bint = 0
			} else if n, err := strconv.Atoi(a); err == nil && n >= 0 {
				w.bint = uint(n)
			}
		}
	}
	if len(v) == 3 && v[0] == "timeout" {
		var to *int
		switch v[1] {
		case "metadata":
			to = &w.meta
		case "request":
			to = &w.req
		case "status":
			to = &w.stat
		case "transfer":
			to = &w.tran
		case "datacounter":
			to = &w.dctr
		default:
			return
		}
		if v[2] == "off" {
			dontcare = v[1]
		} else if n, err := strconv.Atoi(v[2]); err == nil && n >= 0 {
			*to = n
			if n == 0 && to == &w.dctr {
				*to = 100 // the default
			}
		}
	}
	return
}

var c18words = []string{"?", "beacon", "bcount", "cancel", "checksum", "clear", "delete", "descriptor", "exit", "files", "freespace", "get", "getdir", "give", "help", "history", "home", "interval", "ls", "peers", "put", "putblind", "quit", "reqtstamp", "rmtran", "rxwilling", "stream", "take", "timeout", "timestamp", "timezone", "tran", "txwilling", "usage", "nosuch"}

var c18settings = []string{"checksum", "descriptor", "freespace", "reqtstamp", "rxwilling", "txwilling", "stream", "timestamp", "timezone", "bcount", "interval", "timeout"}

func c18gui() *gocui.Gui {
	g := new(gocui.Gui)
	for _, v := range []string{"cmd", "err", "packet", "msg"} {
		g.SetView(v, 0, 0, 10, 5)
	}
	if _, err := g.SetCurrentView("cmd"); err != nil {
		panic(err)
	}
	return g
}

// c18run runs a command line and checks what it leaves.
func c18run(g *gocui.Gui, line string, v []string) {
	s := c18snap()
	Run(g, line)
	sym.WaitIdle()
	now := c18snap()
	want, dontcare := c18want(v, s)
	switch dontcare {
	case "metadata":
		want.meta = now.meta
	case "request":
		want.req = now.req
	case "status":
		want.stat = now.stat
	case "transfer":
		want.tran = now.tran
	case "datacounter":
		want.dctr = now.dctr
	}
	if c18same(s, want) {
		sym.Cover("nothing to change")
		sym.Assert(c18same(now, want), "a line that is no setting command changes no setting")
	} else {
		sym.Cover("changed")
		sym.Assert(c18same(now, want), "a setting command sets that setting to the value named, and no other")
	}
	c18valid()
}

// c18valid: the settings can be used.
func c18valid() {
	c := sarflags.Cliflag
	for f, o := range c.Global {
		sym.Assert(vh.FieldNamed(f).Has(o), "every setting holds an option of its flag")
	}
	var ts timestamp.Timestamp
	sym.Assert(ts.Now(c.Timestamp) == nil, "the timestamp type set is one there is")
	var b beacon.Beacon
	sym.Assert(b.New(sarflags.Setglobal("beacon", c), &beacon.Binfo{Eid: "e"}) == nil, "beacons can be built with the settings")
	var r request.Request
	sym.Assert(r.New(sarflags.Setglobal("request", c), &request.Rinfo{Session: 1, Fname: "f"}) == nil, "requests can be built with the settings")
	var d data.Data
	sym.Assert(d.New(sarflags.Setglobal("data", c), &data.Dinfo{Session: 1, Payload: []byte("x")}) == nil, "data can be built with the settings")
}

// c18still: the commands still work.
func c18still(g *gocui.Gui) {
	Run(g, "bcount 41")
	sym.WaitIdle()
	sym.Assert(sarflags.Cliflag.Bcount == 41, "the next command still works")
}

// c18arg: any argument of n bytes, none of them white space or a control
// character.
func c18arg(name string, n int) string {
	a := sym.Bytes(name, n)
	for _, b := range a {
		sym.Assume(sym.And(b > ' ', b < 0x7f))
	}
	return string(a)
}

func Verif_C18_settings() {
	max, tmax := 7, 3
	if sym.Thorough() {
		max, tmax = 12, 4
	}
	sym.Bound("every setting command with 0 or 1 argument, of 1 to 7 (thorough: 12) printing ASCII characters; the timeout command with any first argument of the lengths of its keywords and a second of 1 to 3 (4) such characters; from two settings of everything")
	w := c18settings[sym.Choose("word", len(c18settings))]
	c18before(sym.Choose("before", 2), w)
	g := c18gui()
	v := []string{w}
	if w == "timeout" {
		lens := []int{0, 6, 7, 8, 10, 11}
		if n := lens[sym.Choose("len1", len(lens))]; n > 0 {
			v = append(v, c18arg("arg1", n))
			if n = sym.Choose("len2", tmax+1); n > 0 {
				v = append(v, c18arg("arg2", n))
			}
		}
	} else if w == "bcount" || w == "interval" {
		if n := sym.Choose("len", tmax+2); n > 0 {
			v = append(v, c18arg("arg", n))
		}
	} else if n := sym.Choose("len", max+1); n > 0 {
		v = append(v, c18arg("arg", n))
	}
	c18run(g, strings.Join(v, " "), v)
	c18still(g)
}

// c18args: what the arguments of the commands may be.
var c18args = []string{"?", "off", "yes", "5", "md5", "v4", "v6", "127.0.0.1", "err", "metadata", "99999999999999999999", "-1", "f"}

func Verif_C18_words() {
	sym.Bound("each of the 34 commands, and a word that is none, with 0 to 3 arguments out of 13 (quick: 3 arguments out of 5): a file name, addresses, numbers, keywords of other commands")
	sardir()
	w := c18words[sym.Choose("word", len(c18words))]
	c18before(0, w)
	Transfers = nil
	g := c18gui()
	v := []string{w}
	n := sym.Choose("args", 4)
	args := c18args
	if n == 2 && !sym.Thorough() {
		args = []string{"?", "off", "5", "v6", "127.0.0.1", "metadata", "f"}
	}
	if n == 3 && !sym.Thorough() {
		args = []string{"off", "127.0.0.1", "5", "f"}
	}
	for i := 0; i < n; i++ {
		v = append(v, args[sym.Choose("arg"+strconv.Itoa(i), len(args))])
	}
	c18run(g, strings.Join(v, " "), v)
	c18still(g)
}

func Verif_C18_lines() {
	n := 3
	if sym.Thorough() {
		n = 5
	}
	sym.Bound("any line of 0 to 3 (thorough: 5) bytes, on its own or after the word checksum")
	c18before(0, "")
	g := c18gui()
	line := sym.String("line", sym.Choose("len", n+1))
	if sym.Choose("after", 2) == 1 {
		line = "checksum" + line
	}
	c18run(g, line, strings.Fields(line))
}

func Verif_C18_spaces() {
	sym.Bound("a setting command of two words before, between and after which there is any white space character of ASCII")
	c18before(1, "")
	g := c18gui()
	var sp [3]string
	for i := range sp {
		b := sym.U8("space" + strconv.Itoa(i))
		sym.Assume(sym.Or(b == ' ', sym.And(b >= 9, b <= 13)))
		sp[i] = string([]byte{b})
	}
	v := []string{"checksum", "sha1"}
	c18run(g, sp[0]+v[0]+sp[1]+v[1]+sp[2], v)
}
