package trans

import (
	"net"
	"os"

	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/status"
	"github.com/charlesetsmith/saratoga/timestamp"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/vh"
	"github.com/jroimartin/gocui"
)

func Verif_Setup() { vh.Setup() }

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// sardir makes the working directory: a file f, an empty directory d and one
// that is not empty, n.
func sardir() string {
	wd, err := os.Getwd()
	must(err)
	s := wd + "/s"
	must(os.MkdirAll(s+"/n", 0755))
	must(os.MkdirAll(s+"/d", 0755))
	must(os.WriteFile(s+"/f", []byte("file"), 0644))
	must(os.WriteFile(s+"/n/g", []byte("inner"), 0644))
	must(os.WriteFile(wd+"/f2", []byte("outside"), 0644))
	sarflags.Cliflag.Sardir = s
	return s
}

func there(p string) bool { _, err := os.Lstat(p); return err == nil }

var c24codes = []string{"success", "badrequest", "cantreceive", "cantsend", "filenotfound", "fileinuse", "didnotdelete"}

// c24files: which of the files made by sardir are there.
func c24files(s string) (r [5]bool) {
	for i, p := range []string{"/f", "/d", "/n", "/n/g", "/../f2"} {
		r[i] = there(s + p)
	}
	return r
}

// c24want: the codes a request may be answered with.
func c24want(h uint32, exists, removable bool) (ok bool, reasons [7]bool, kind string) {
	is := func(n, o string) bool { return vh.HGet(h, n) == vh.HOpt(n, o) }
	get := sym.Or(is("reqtype", "get"), is("reqtype", "take"), is("reqtype", "getdir"))
	put := sym.Or(is("reqtype", "put"), is("reqtype", "give"))
	del := is("reqtype", "delete")
	reasons[1] = sym.Or(sym.Not(is("version", "v1")), sym.Not(is("udplite", "no")), sym.Not(is("stream", "no")), sym.Not(sym.Or(get, put, del)))
	reasons[2] = sym.Or(is("rxwilling", "invalid"), sym.And(get, sym.Not(is("rxwilling", "yes"))))
	reasons[3] = sym.Or(is("txwilling", "invalid"), sym.And(put, sym.Not(is("txwilling", "yes"))))
	reasons[4] = sym.And(sym.Or(get, del), sym.Not(exists))
	reasons[5] = sym.And(put, exists)
	reasons[6] = sym.And(del, exists, sym.Not(removable))
	none := true
	for _, r := range reasons {
		none = sym.And(none, sym.Not(r))
	}
	reasons[0] = none
	if none { // a fork: what follows differs
		ok = true
		switch {
		case del:
			kind = "delete"
		default:
			kind = "transfer"
		}
	}
	return
}

func c24request(name, tag string, exists, removable bool, s string, from *net.UDPAddr) {
	r := request.Request{Header: sym.U32(tag + "header"), Session: sym.U32(tag + "session"), Fname: name}
	if tag == "" && sym.Choose(tag+"auth", 2) == 1 {
		r.Auth = sym.Bytes(tag+"authbytes", 1)
	}
	tx := make(chan interface{}, 8)
	before := append([]Transfer{}, Transfers...)
	files := c24files(s)
	ret := AddRxTran(new(gocui.Gui), &r, from, tx)
	sym.Assert(len(tx) == 1, "every request is answered with one status")
	if len(tx) == 0 {
		return
	}
	st, isst := (<-tx).(status.Packet)
	if !isst {
		sym.Fail("a request is answered with a status")
		return
	}
	ok, reasons, kind := c24want(r.Header, exists, removable)
	code := vh.HGet(st.Info.Header, "errcode")
	right := false
	for i, c := range c24codes {
		right = sym.Or(right, sym.And(code == vh.HOpt("errcode", c), reasons[i]))
	}
	sym.Assert(right, "the error code says what became of the request")
	sym.Assert(ret == ok, "success is reported exactly when the request was carried out")
	sym.Assert(sym.And(vh.HGet(st.Info.Header, "version") == vh.HOpt("version", "v1"), vh.HGet(st.Info.Header, "frametype") == vh.HOpt("frametype", "status")), "the answer is a status frame")
	sym.Assert(st.Info.Session == r.Session, "the answer has the request's session")
	sym.Assert(st.Addr.String() == from.String(), "the answer goes to the address the request came from")
	if _, err := st.Info.Encode(); err != nil {
		sym.Fail("the answer can be sent")
	}
	now := c24files(s)
	if kind == "delete" {
		sym.Cover("deleted")
		n := 0
		for i := range files {
			if files[i] && !now[i] {
				n++
			}
		}
		sym.Assert(n == 1, "a delete removes the file asked for and no other")
		sym.Assert(!there(s+"/"+name), "a delete removes the file asked for and no other")
	} else {
		sym.Assert(files == now, "only a delete that succeeds removes a file")
	}
	want := len(before)
	if kind == "transfer" {
		want++
		sym.Cover("accepted")
	}
	sym.Assert(len(Transfers) == want, "a transfer is recorded exactly when the request for it succeeds")
	if len(Transfers) != want {
		return
	}
	for i := range before {
		b, a := &before[i], &Transfers[i]
		sym.Assert(sym.And(a.Session == b.Session, sym.EqStr(a.Filename, b.Filename), a.Ttype == b.Ttype, a.Peer.String() == b.Peer.String()), "other transfers stay as they are")
	}
	if kind == "transfer" {
		t := &Transfers[want-1]
		sym.Assert(t.Peer.String() == from.String(), "the transfer has the request's peer")
		sym.Assert(t.Session == r.Session, "the transfer has the request's session")
		sym.Assert(sym.EqStr(t.Filename, name), "the transfer has the request's file name")
		sym.Assert(vh.HOpt("reqtype", t.Ttype) == vh.HGet(r.Header, "reqtype"), "the transfer has the request's type")
		var ts timestamp.Timestamp
		sym.Assert(ts.Now(t.Timetype) == nil, "the transfer has a timestamp type there is")
	} else if !ok {
		sym.Cover("refused")
	}
}

func c24from(k int) *net.UDPAddr {
	if k == 0 {
		return vaddr("10.0.0.7", 40000)
	}
	return &net.UDPAddr{IP: net.ParseIP("fe80::7"), Port: 7542, Zone: "eth0"}
}

func vaddr(ip string, port int) *net.UDPAddr { return &net.UDPAddr{IP: net.ParseIP(ip), Port: port} }

func Verif_C24_request() {
	sym.Bound("one request with any header (every version, type and flag), session and one letter as its file name, from an IPv4 or IPv6 address, with or without authentication, to a directory holding a file, an empty directory and one that is not empty")
	s := sardir()
	Transfers = nil
	c := sym.U8("name")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	exists := sym.Or(c == 'f', c == 'd', c == 'n')
	c24request(string([]byte{c}), "", exists, c != 'n', s, c24from(sym.Choose("from", 2)))
}

func Verif_C24_names() {
	sym.Bound("one request with any header and session, of the empty name, the working directory itself, a file in a directory, names with . and .. and names outside")
	s := sardir()
	Transfers = nil
	names := []struct {
		n                 string
		exists, removable bool
	}{
		{"", true, false}, {".", true, false}, {"/", true, false}, {"..", true, false}, {"n/g", true, true}, {"n/../f", true, true},
		{"../f", true, true}, {"../f2", false, false}, {"n/g/x", false, false}, {"f2", false, false}, {"//f", true, true}, {"../../n/", true, false},
	}
	n := names[sym.Choose("name", len(names))]
	c24request(n.n, "", n.exists, n.removable, s, c24from(0))
}

func Verif_C24_two() {
	sym.Bound("two requests one after the other, each with any header and session and one of three names (four in the thorough check), from one address or two")
	s := sardir()
	Transfers = nil
	gone := [4]bool{}
	nn := 3
	if sym.Thorough() {
		nn = 4
	}
	names := []string{"f", "n", "x", "d"}
	for _, tag := range []string{"r1.", "r2."} {
		k := sym.Choose(tag+"name", nn)
		from := 0
		if tag == "r2." {
			from = sym.Choose(tag+"from", 2)
		}
		c24request(names[k], tag, k != 2 && !gone[k], k != 1, s, c24from(from))
		gone[k] = !there(s + "/" + names[k])
	}
}

// A request while any transfers are in progress.
func Verif_C24_step() {
	n := 4
	if sym.Thorough() {
		n = 8
	}
	sym.Bound("up to 4 (thorough: 8) transfers in progress with any sessions, one-letter names and different peers; then one request with any header and session for a file, a directory or nothing, from one of two addresses")
	s := sardir()
	Transfers = nil
	k := sym.Choose("transfers", n+1)
	for i := 0; i < k; i++ {
		tag := "t" + string(rune('0'+i))
		c := sym.U8(tag + ".name")
		sym.Assume(sym.And(c >= 'a', c <= 'z'))
		Transfers = append(Transfers, Transfer{Session: sym.U32(tag + ".session"), Filename: string([]byte{c}), Peer: *vaddr("10.0.0.9", 9000+i), Ttype: "get"})
	}
	f := sym.Choose("name", 3)
	c24request([]string{"f", "n", "x"}[f], "r.", f != 2, f != 1, s, c24from(sym.Choose("from", 2)))
}
