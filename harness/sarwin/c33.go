package sarwin

import (
	"net"
	"strconv"
	"strings"
	"time"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/timestamp"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/term"
	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
)

// c33run: the node with the real gocui; say runs a command line and returns what
// is then added to the messages and to the errors.
func c33run(body func(say func(line string) (msg, err []string))) {
	sardir()
	sym.Digits(true)
	term.X, term.Y = 48, 24
	c32run(func(g *gocui.Gui) (termbox.Event, bool) {
		c33gui = g
		body(func(line string) (msg, err []string) {
			var vs [2]*gocui.View
			for i, n := range []string{"msg", "err"} {
				v, e := g.View(n)
				if e != nil {
					sym.Fail("there is a window for messages and one for errors")
				}
				v.Clear()
				vs[i] = v
			}
			Run(g, line)
			sym.WaitIdle()
			return c33lines(vs[0]), c33lines(vs[1])
		})
		return termbox.Event{}, false
	})
	sym.Cover("ran")
}

func c33lines(v *gocui.View) (r []string) {
	for _, l := range v.BufferLines() {
		if len(l) > 0 {
			r = append(r, l)
		}
	}
	return
}

// c33same: the same lines.
func c33same(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for _, x := range a {
		in := false
		for _, y := range b {
			in = sym.Or(in, sym.EqStr(x, y))
		}
		r = sym.And(r, in)
	}
	return r
}

// c33has: one of the lines has the text.
func c33has(lines []string, text string) bool {
	r := false
	for _, l := range lines {
		for i := 0; i+len(text) <= len(l); i++ {
			r = sym.Or(r, sym.EqStr(l[i:i+len(text)], text))
		}
	}
	return r
}

// c33number: one of the lines has the number.
func c33number(lines []string, n int) bool {
	r := false
	for _, l := range lines {
		v, in := 0, false
		for i := 0; i <= len(l); i++ {
			if i < len(l) && l[i] >= '0' && l[i] <= '9' {
				v = 10*v + int(l[i]-'0')
				in = true
			} else if in {
				r = sym.Or(r, v == n)
				v, in = 0, false
			}
		}
	}
	return r
}

// c33not: the text says that something is not so.
func c33not(lines []string) bool {
	for _, l := range lines {
		for _, w := range strings.Fields(strings.ToLower(l)) {
			if w == "no" || w == "not" || w == "cannot" || w == "off" {
				return true
			}
		}
	}
	return false
}

// c33value: a setting, its values, and the lines that show them.
type c33value struct {
	show string
	set  []string
	opts []string // of a setting that is a word, otherwise it is a number
	to   func(c *sarflags.Cliflags, word string, n int)
}

func c33global(show, f string, opts ...string) c33value {
	var set []string
	for _, o := range opts {
		if f == "rxwilling" || f == "txwilling" {
			o = map[string]string{"yes": "on", "no": "off", "capable": "capable"}[o]
		}
		set = append(set, show+" "+o)
	}
	return c33value{show, set, opts, func(c *sarflags.Cliflags, word string, n int) { c.Global[f] = word }}
}

var c33values = []c33value{
	c33global("checksum", "csumtype", "none", "crc32", "md5", "sha1"),
	c33global("descriptor", "descriptor", "d16", "d32", "d64"),
	c33global("freespace", "freespace", "yes", "no"),
	c33global("reqtstamp", "reqtstamp", "yes", "no"),
	c33global("stream", "stream", "yes", "no"),
	c33global("rxwilling", "rxwilling", "yes", "no", "capable"),
	c33global("txwilling", "txwilling", "yes", "no", "capable"),
	{"timezone", []string{"timezone utc", "timezone local"}, []string{"utc", "local"}, func(c *sarflags.Cliflags, word string, n int) { c.Timezone = word }},
	{"timestamp", nil, []string{"posix32", "posix64", "posix32_32", "posix64_32", "epoch2000_32", "localinterp"}, func(c *sarflags.Cliflags, word string, n int) { c.Timestamp = word }},
	{"bcount", nil, nil, func(c *sarflags.Cliflags, word string, n int) { c.Bcount = uint(n) }},
	{"interval", nil, nil, func(c *sarflags.Cliflags, word string, n int) { c.Timeout.Binterval = uint(n) }},
	{"timeout metadata", nil, nil, func(c *sarflags.Cliflags, word string, n int) { c.Timeout.Metadata = n }},
	{"timeout request", nil, nil, func(c *sarflags.Cliflags, word string, n int) { c.Timeout.Request = n }},
	{"timeout status", nil, nil, func(c *sarflags.Cliflags, word string, n int) { c.Timeout.Status = n }},
	{"timeout transfer", nil, nil, func(c *sarflags.Cliflags, word string, n int) { c.Timeout.Transfer = n }},
	{"timeout datacounter", nil, nil, func(c *sarflags.Cliflags, word string, n int) { c.Timeout.Datacounter = n }},
}

// c33others: all the settings, one of three ways.
func c33others(k int) {
	c18before(k%2, "interval")
	if k == 2 {
		t := &sarflags.Cliflag.Timeout
		t.Metadata, t.Request, t.Status, t.Transfer, t.Binterval = 0, 0, 0, 0, 0
	}
}

// c33number of the settings that are one.
func c33range(tag string, v c33value) int {
	lo, hi := 0, 999
	if sym.Thorough() {
		hi = 99999
	}
	if v.show == "timeout datacounter" {
		lo = 1
	}
	return int(sym.Range(tag, uint64(lo), uint64(hi)))
}

// What a setting is said to be is what it is, whatever the others are.
func Verif_C33_settings() {
	sym.Bound("each of the 16 settings, any of its words or numbers of 0..999 (thorough: 99999), the other settings in three ways: the text differs with the value and with nothing else, and has the number or word")
	v := c33values[sym.Choose("setting", len(c33values))]
	// shown on its own, or in the list of all timeouts
	all := strings.HasPrefix(v.show, "timeout ") && sym.Choose("all", 2) == 1
	c33run(func(say func(line string) (msg, err []string)) {
		show := v.show
		k := sym.Choose("others", 3)
		k2 := 0
		if all {
			show = "timeout"
			k2 = k
		}
		var text [2][]string
		var word [2]string
		var n [2]int
		for i, tag := range []string{"a", "b"} {
			c33others([]int{k, k2}[i])
			if v.opts != nil {
				word[i] = v.opts[sym.Choose(tag, len(v.opts))]
				v.to(sarflags.Cliflag, word[i], 0)
			} else {
				n[i] = c33range(tag, v)
				v.to(sarflags.Cliflag, "", n[i])
			}
			if v.show == "timestamp" { // it says whether they are asked for, too
				sarflags.Cliflag.Global["reqtstamp"] = "yes"
			}
			m, e := say(show)
			sym.Assert(len(m) > 0 && len(e) == 0, "a setting that is asked for is told")
			text[i] = m
			if v.opts == nil {
				sym.Assert(sym.Or(n[i] == 0, c33number(m, n[i])), "the number told is that of the setting")
			} else if len(v.opts) == 2 && v.opts[1] == "no" {
				sym.Assert(c33not(m) == (word[i] == "no"), "what is told as off is off")
			} else {
				sym.Assert(c33has(m, word[i]), "the word told is that of the setting")
			}
		}
		same := sym.And(word[0] == word[1], n[0] == n[1])
		sym.Assert(sym.Implies(same, c33same(text[0], text[1])), "what is told does not depend on other settings")
		sym.Assert(sym.Implies(c33same(text[0], text[1]), same), "different values are told apart")
	})
}

// A setting command that tells what it did tells what it did.
func Verif_C33_reply() {
	sym.Bound("each command that sets a word, or a number of 1..99; the settings before it in two ways")
	v := c33values[sym.Choose("setting", len(c33values))]
	c33run(func(say func(line string) (msg, err []string)) {
		c33others(sym.Choose("before", 2))
		if v.set != nil {
			i := sym.Choose("to", len(v.set))
			m, e := say(v.set[i])
			sym.Assert(len(e) == 0, "a setting command that is right is no error")
			for j := range v.opts {
				if len(m) > 0 && len(v.opts) > 2 {
					sym.Assert(c33has(m, v.opts[j]) == (i == j), "the word replied is that set")
				}
			}
			if len(m) > 0 && v.opts[1] == "no" {
				sym.Assert(c33not(m) == (i == 1), "what is replied as off is off")
			}
			return
		}
		if v.opts == nil {
			n := int(sym.Range("n", 1, 99))
			d := string([]byte{byte('0' + n/10), byte('0' + n%10)})
			m, e := say(v.show + " " + d)
			sym.Assert(len(e) == 0, "a setting command that is right is no error")
			if len(m) > 0 {
				sym.Assert(c33number(m, n), "the number replied is that set")
			}
		}
	})
}

var c33types = []string{"get", "getdir", "take", "put", "putblind", "give", "delete"}

// The transfers listed are those in progress.
func Verif_C33_transfers() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Bound("up to 2 (thorough: 3) transfers of any type, either direction, names of 1 or 2 bytes, peers of IPv4 and IPv6 that differ in the address, the port or the zone; all of them listed, those of each type, and those of a command given alone")
	c33run(func(say func(line string) (msg, err []string)) {
		Transfers = nil
		var peers []*net.UDPAddr
		for _, a := range []string{"10.0.0.7:7542", "10.0.0.7:7543", "[fe80::1]:7543", "[fe80::1%lo]:7543"} {
			p, _ := net.ResolveUDPAddr("udp", a)
			peers = append(peers, p)
		}
		n = sym.Choose("n", n+1)
		types := append([]string{""}, c33types...)
		ask := types[sym.Choose("ask", len(types))]
		line := "tran " + ask
		if sym.Bool("alone") {
			line = ask
		}
		if ask == "" {
			line = []string{"tran", "files"}[sym.Choose("line", 2)]
		}
		want := 0
		first := sym.Choose("peer", len(peers))
		for i := 0; i < n; i++ {
			tag := "t" + strconv.Itoa(i)
			name := sym.Bytes(tag+".name", 1+sym.Choose(tag+".len", 2))
			for _, b := range name {
				sym.Assume(sym.And(b >= '#', b <= '*'))
			}
			// of the type asked for, or of the next one
			tt := ask
			if ask == "" && i == 0 {
				tt = c33types[sym.Choose(tag+".type", len(c33types))]
			} else if ask == "" || sym.Bool(tag+".other") {
				tt = c33types[i]
			}
			if ask == "" || tt == ask {
				want++
			}
			Transfers = append(Transfers, Transfer{Direction: sym.Choose(tag+".dir", 2) == 1, Session: uint32(11 + i), Ttype: tt, Filename: string(name), Peer: peers[(first+i)%len(peers)]})
		}
		m, e := say(line)
		sym.Assert(len(e) == 0 && len(m) > 0, "transfers that are asked for are told")
		rows := 0
		for _, l := range m {
			if c33has([]string{l}, ":754") {
				rows++
			}
		}
		sym.Assert(rows == want, "as many transfers are listed as there are of the type")
		for i := range Transfers {
			t := &Transfers[i]
			told := false
			for _, l := range m {
				row := []string{l}
				if !c33has(row, t.Peer.String()) {
					continue
				}
				told = true
				sym.Assert(ask == "" || t.Ttype == ask, "only transfers of the type asked for are listed")
				sym.Assert(c33has(row, t.Filename), "a transfer is listed with its file")
				sym.Assert(strings.Contains(c33plain(l), t.Ttype), "a transfer is listed with its type")
				sym.Assert(c33has(row, Directions[t.Direction]), "a transfer is listed with its direction")
			}
			sym.Assert(told == (ask == "" || t.Ttype == ask), "a transfer of the type is listed with its peer")
		}
	})
}

func Verif_C33_alike() {
	sym.Bound("one to three transfers that differ in nothing but their sessions, or in the file, the names of 3, 35 or 255 bytes, listed together or by their type")
	c33run(func(say func(line string) (msg, err []string)) {
		Transfers = nil
		dir := sym.Choose("dir", 2) == 1
		tt := c33types[sym.Choose("type", len(c33types))]
		n := 1 + sym.Choose("n", 3)
		other := sym.Choose("other", n+1)
		long := strings.Repeat("f", []int{0, 32, 252}[sym.Choose("long", 3)])
		for i := 0; i < n; i++ {
			name := long + "one"
			if i == other {
				name = long + "two"
			}
			p, _ := net.ResolveUDPAddr("udp", "10.0.0.7:7542")
			Transfers = append(Transfers, Transfer{Direction: dir, Session: uint32(11 + i), Ttype: tt, Filename: name, Peer: p})
		}
		m, _ := say([]string{"tran", "tran " + tt, tt}[sym.Choose("line", 3)])
		rows, named := 0, 0
		for _, l := range m {
			if c33has([]string{l}, "10.0.0.7:7542") {
				rows++
			}
			if c33has([]string{l}, long+"two") {
				named++
			} else if rows > 0 {
				sym.Assert(!c33has([]string{l}, "7542") || c33has([]string{l}, long+"one"), "a transfer is listed with its file")
			}
		}
		sym.Assert(rows == n, "as many transfers are listed as there are of the type")
		sym.Assert((named == 1) == (other < n), "a transfer is listed with its file")
	})
}

// c33plain: the line without the characters that names are made of.
func c33plain(l string) string {
	var r []byte
	for i := 0; i < len(l); i++ {
		if l[i] >= 'A' {
			r = append(r, l[i])
		} else {
			r = append(r, ' ')
		}
	}
	return string(r)
}

// The peers listed are those in the table.
func Verif_C33_peers() {
	sym.Bound("0 to 2 peers, identifiers of 1 to 3 bytes, free space of 0 to 9999 GB, all descriptors and willingnesses, times of 1970..2106")
	sym.Clock(1700000000)
	c33run(func(say func(line string) (msg, err []string)) {
		beacon.Peers = nil
		var gb []int
		for i, n := 0, sym.Choose("n", 3); i < n; i++ {
			tag := "p" + strconv.Itoa(i)
			eid := sym.Bytes(tag+".eid", 1+sym.Choose(tag+".len", 3))
			for _, b := range eid {
				sym.Assume(sym.And(b >= '#', b <= '*'))
			}
			gb = append(gb, []int{0, 1, 17, 9999}[sym.Choose(tag+".gb", 4)])
			var ts timestamp.Timestamp
			if ts.Now("posix32") != nil {
				sym.Fail("there is a time")
			}
			var up timestamp.Timestamp
			if up.New("posix32", time.Unix(1700086400+int64(i)*3600, 0).UTC()) != nil {
				sym.Fail("there is a time")
			}
			k := sym.Choose(tag+".kind", 3)
			beacon.Peers = append(beacon.Peers, beacon.Peer{Addr: []string{"10.0.0.7", "fe80::1"}[i], Eid: string(eid), Freespace: uint64(gb[i])<<20 + 1023, Maxdesc: []string{"d16", "d32", "d64"}[k], Canrx: []string{"yes", "no", "capable"}[k], Cantx: []string{"capable", "yes", "no"}[k], Created: ts, Updated: up})
		}
		m, e := say("peers")
		sym.Assert(len(e) == 0 && len(m) > 0, "peers that are asked for are told")
		var head []string // the titles of the columns
		for _, l := range m {
			if c := strings.Split(l, "|"); len(head) == 0 && len(c) > 3 {
				for _, t := range c {
					head = append(head, strings.TrimSpace(t))
				}
			}
		}
		for i, p := range beacon.Peers {
			rows := 0
			for _, l := range m {
				row := []string{l}
				if !c33has(row, p.Addr) {
					continue
				}
				rows++
				sym.Assert(c33has(row, p.Eid), "a peer is listed with its identifier")
				sym.Assert(c33number(row, gb[i]), "a peer is listed with its free space")
				sym.Assert(sym.And(c33has(row, p.Maxdesc), c33has(row, p.Canrx), c33has(row, p.Cantx)), "a peer is listed with what it can do")
				sym.Assert(c33has(row, p.Created.Print()), "a peer is listed with the time it was first heard")
				sym.Assert(c33has(row, p.Updated.Print()), "a peer is listed with the time it was last heard")
				cells := strings.Split(l, "|")
				for j, t := range head {
					if len(cells) != len(head) {
						break
					}
					for _, w := range []struct{ title, text string }{{"Rx", p.Canrx}, {"Tx", p.Cantx}, {"Created", p.Created.Print()}, {"Modified", p.Updated.Print()}, {"GB", strconv.Itoa(gb[i])}} {
						if t == w.title {
							sym.Assert(strings.TrimSpace(cells[j]) == strings.TrimSpace(w.text), "what is told of a peer stands under its title")
							sym.Cover("under " + t)
						}
					}
				}
			}
			sym.Assert(rows == 1, "each peer is listed once")
		}
	})
}

// The help and the usage of a command are those of the configuration.
func Verif_C33_help() {
	sym.Bound("help, ? and usage, and each command followed by ?")
	w := c18words[sym.Choose("word", len(c18words)-1)]
	c33run(func(say func(line string) (msg, err []string)) {
		c, there := sarflags.Commands[w]
		if !there {
			sym.Fail("each command is in the configuration")
			return
		}
		s := c18snap()
		m, e := say(w + " ?")
		sym.Assert(len(e) == 0, "asking for the usage is no error")
		sym.Assert(c33has(m, c.Usage), "a command followed by ? tells its usage")
		if w != "usage" {
			sym.Assert(c33has(m, c.Help), "a command followed by ? tells its help")
		}
		sym.Assert(c18same(s, c18snap()) && Cexit == -1, "asking for the usage changes nothing")
		m, _ = say("help")
		sym.Assert(c33has(m, c.Help), "help tells the help of every command")
		m, _ = say("usage")
		sym.Assert(c33has(m, c.Usage), "usage tells the usage of every command")
	})
}

// A command line that cannot be done is answered with an error.
func Verif_C33_refused() {
	sym.Bound("each command that has a choice of arguments, and a word that is no command, with 1 to 4 arguments it does not know: of 1 or 2 lower case letters, or the first of them a keyword of timeout, the second of it off")
	var words []string
	for _, w := range c18words {
		switch w {
		case "?", "help", "usage", "history", "cancel", "clear": // no choice of arguments, or done
		default:
			words = append(words, w)
		}
	}
	w := words[sym.Choose("word", len(words))]
	c33run(func(say func(line string) (msg, err []string)) {
		line := w
		n := 1 + sym.Choose("args", 4)
		for i := 0; i < n; i++ {
			if i == 0 && w == "timeout" {
				if k := sym.Choose("keyword", 6); k > 0 {
					if n == 1 {
						return // asks for it
					}
					line += " " + []string{"metadata", "request", "status", "transfer", "datacounter"}[k-1]
					continue
				}
			}
			if i == 1 && w == "timeout" && strings.Count(line, " ") == 1 && len(line) < 11 && n == 2 && sym.Bool("off") {
				line += " off"
				continue
			}
			a := sym.Bytes("arg"+strconv.Itoa(i), 1+sym.Choose("len"+strconv.Itoa(i), 2))
			for _, b := range a {
				sym.Assume(sym.And(b >= 'a', b <= 'z'))
			}
			for _, known := range []string{"on", "no", "rm"} {
				sym.Assume(sym.Not(sym.EqStr(string(a), known)))
			}
			line += " " + string(a)
		}
		s, nt := c18snap(), len(Transfers)
		_, e := say(line)
		told := c33has(e, strings.Fields(line)[1])
		if c, there := sarflags.Commands[w]; there {
			told = sym.Or(told, c33has(e, c.Usage))
		} else {
			told = c33has(e, w)
		}
		sym.Assert(told, "a line that cannot be done is answered with what is wrong, or with the usage of the command")
		sym.Assert(c18same(s, c18snap()) && len(Transfers) == nt && Cexit == -1, "a line that cannot be done changes nothing")
	})
}

// A window is cleared when that is asked for, and no other.
func Verif_C33_clear() {
	sym.Bound("clear, and clear with one or two of the windows, or a word that is none; with 1, 3 or 30 lines in each; then another line")
	c33run(func(say func(line string) (msg, err []string)) {
		wins := []string{"msg", "err", "packet", "zz"}
		line, want := "clear", [3]bool{}
		n := sym.Choose("n", 3)
		for i := 0; i < n; i++ {
			k := sym.Choose("win", len(wins))
			line += " " + wins[k]
			if k == 3 {
				break
			}
			want[k] = true
		}
		if n == 0 {
			want = [3]bool{true, true, true}
		}
		left := c33windows(line, []int{1, 3, 30}[sym.Choose("lines", 3)])
		for i := range want {
			sym.Assert((left[i] == 0) == want[i], "the windows cleared are those named")
		}
	})
}

// c33windows: how many of so many lines in each window a command leaves.
func c33windows(line string, n int) (left [3]int) {
	g := c33gui
	wins := []string{"msg", "err", "packet"}
	for _, w := range wins {
		v, err := g.View(w)
		if err != nil {
			sym.Fail("there is a window")
			return
		}
		for i := 0; i < n; i++ {
			v.Write([]byte("#old\n"))
		}
	}
	Run(g, line)
	sym.WaitIdle()
	for i, w := range wins {
		v, _ := g.View(w)
		for _, l := range v.BufferLines() {
			if l == "#old" {
				left[i]++
			}
		}
		sym.Assert(left[i] == 0 || left[i] == n, "a window is cleared as a whole")
	}
	MsgPrintln(g, "green_black", "#new")
	ErrPrintln(g, "green_black", "#new")
	PacketPrintln(g, "green_black", "#new")
	sym.WaitIdle()
	for i, w := range wins {
		v, _ := g.View(w)
		_, oy := v.Origin()
		_, sy := v.Size()
		seen := false
		for j, l := range v.ViewBufferLines() {
			seen = seen || l == "#new" && j >= oy && j < oy+sy
		}
		sym.Assert(seen || w == "packet" && left[i] > 0, "what is printed next is seen")
	}
	return
}

var c33gui *gocui.Gui

// Which multicast beacons are told to be sent.
func Verif_C33_beacon() {
	n := 3
	if sym.Thorough() {
		n = 4
	}
	sym.Bound("0 to 3 (thorough: 4) commands out of beacon v4 or v6, beacon off, off v4, off v6 or off both; any bcount of 0 to 2")
	c33run(func(say func(line string) (msg, err []string)) {
		sarflags.Cliflag.Timeout.Binterval = 0
		var on [2]bool
		for i, k := 0, sym.Choose("n", n+1); i < k; i++ {
			c := sym.Choose("c"+strconv.Itoa(i), 6)
			sarflags.Cliflag.Bcount = 0
			m, e := say("beacon " + []string{"v4", "v6", "off", "off v4", "off v6", "off v6 v4"}[c])
			sym.Assert(len(e) == 0 || c < 2, "a beacon command that is right is no error")
			switch c {
			case 0, 1:
				on[c] = true
				sym.Assert(c33has(m, "IPv"+[]string{"4", "6"}[c]), "beacons started are told")
			case 2, 5:
				on = [2]bool{}
			default:
				on[c-3] = false
			}
		}
		sarflags.Cliflag.Bcount = uint(sym.Choose("count", 3))
		m, e := say("beacon")
		sym.Assert(len(m) > 0 && len(e) == 0, "what beacons are sent is told")
		sym.Assert(c33has(m, "IPv4") == on[0] && c33has(m, "IPv6") == on[1], "the beacons told are those started and not turned off")
		sym.Assert(c33not(m) == !(on[0] || on[1]), "no beacons is told as that")
	})
}
