package sarwin

import (
	"net"
	"os"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/jroimartin/gocui"
)

// sardir makes and configures a working directory holding the files a and b.
func sardir() {
	wd, err := os.Getwd()
	if err != nil {
		panic(err)
	}
	os.MkdirAll(wd+"/s", 0755)
	sarflags.Cliflag.Sardir = wd + "/s"
	os.WriteFile(wd+"/s/a", []byte("first"), 0644)
	os.WriteFile(wd+"/s/b", []byte("second"), 0644)
}

var c16types = []string{"get", "take", "put", "give", "putblind", "delete", "frob"}

// The last peer cannot be dialled: link-local without a zone.
func c16peer(k int) (*net.UDPAddr, string) {
	switch k {
	case 0:
		return vaddr(7542), "127.0.0.1:7542"
	case 1:
		return vaddr(17542), "127.0.0.1:17542"
	}
	return &net.UDPAddr{IP: net.IP{0xfe, 0x80, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}, Port: 7542}, "[fe80::1]:7542"
}

type c16tran struct {
	ttype, peer, name string
	session           uint32
}

type c16world struct {
	have []string // local files
	want []c16tran
}

func (w *c16world) exists(name string) bool {
	r := false
	for _, f := range w.have {
		r = sym.Or(r, sym.EqStr(f, name))
	}
	return r
}

// start starts a transfer and checks that it is refused or added as it should be.
func (w *c16world) start(tag string, types int) {
	tt := c16types[sym.Choose(tag+".type", types)]
	peer, ps := c16peer(sym.Choose(tag+".peer", 3))
	c := sym.U8(tag + ".name")
	sym.Assume(sym.And(c >= 'a', c <= 'z'))
	w.begin(tt, peer, ps, string([]byte{c}))
}

func (w *c16world) begin(tt string, peer *net.UDPAddr, ps, name string) {
	g := new(gocui.Gui)

	startable := ps != "[fe80::1]:7542"
	switch tt {
	case "get", "take":
		startable = sym.And(startable, sym.Not(w.exists(name)))
	case "put", "give", "putblind":
		startable = sym.And(startable, w.exists(name))
	case "delete":
	default:
		startable = false
	}
	dup, similar := false, false
	for _, o := range w.want {
		if o.peer == ps {
			dup = sym.Or(dup, sym.And(sym.EqStr(o.name, name), o.ttype == tt))
			similar = sym.Or(similar, sym.EqStr(o.name, name))
		}
	}
	t, err := NewInitiator(g, tt, peer, name, sarflags.Cliflag)
	sym.Assert(sym.Implies(dup, err != nil), "a transfer already in progress is refused")
	sym.Assert(sym.Implies(sym.Not(startable), err != nil), "a transfer that cannot be started is an error")
	sym.Assert(sym.Implies(sym.And(startable, sym.Not(similar)), err == nil), "a transfer that can be started is started")
	if err == nil {
		if t == nil {
			sym.Fail("a transfer started is returned")
			return
		}
		sym.Cover("started")
		w.want = append(w.want, c16tran{tt, ps, name, t.Session})
		if tt == "get" || tt == "take" {
			w.have = append(w.have, name)
		}
	} else {
		sym.Cover("refused")
	}
	w.check()
}

func (w *c16world) check() {
	sym.Assert(len(Transfers) == len(w.want), "the table holds the transfers that were started and no others")
	for i, o := range w.want {
		n := 0
		ok := false
		for j := range Transfers {
			t := &Transfers[j]
			if t.Session == o.session {
				n++
				ok = t.Direction == Initiator && t.Ttype == o.ttype && t.Peer.String() == o.peer && sym.EqStr(t.Filename, o.name) && t.Conn != nil && t.Cliflags != nil
			}
		}
		sym.Assert(n == 1, "no two transfers share a session number")
		sym.Assert(ok, "a transfer started is recorded as asked")
		for _, p := range w.want[:i] {
			sym.Assert(p.session != o.session, "no two transfers share a session number")
			sym.Assert(sym.Not(sym.And(p.ttype == o.ttype, p.peer == o.peer, sym.EqStr(p.name, o.name))), "no transfer is in the table twice")
		}
	}
}

func Verif_C16_two() {
	sym.Bound("two transfers started one after the other, each of any of seven types (one unknown), to one of three peers (one that cannot be dialled), of a file named by any letter, with two local files there")
	sardir()
	Transfers = nil
	w := &c16world{have: []string{"a", "b"}}
	w.start("t1", len(c16types))
	w.start("t2", len(c16types))
	c17close()
}

func Verif_C16_forms() {
	sym.Bound("two transfers started one after the other, each a put or delete of a file named by any letter, to one peer whose IPv4 address is held in 4 or in 16 bytes each time")
	sardir()
	Transfers = nil
	w := &c16world{have: []string{"a", "b"}}
	tt := []string{"put", "delete"}
	for i := 0; i < 2; i++ {
		tag := "t" + string(rune('1'+i))
		c := sym.U8(tag + ".name")
		sym.Assume(sym.And(c >= 'a', c <= 'z'))
		p := vaddr(7542)
		if sym.Choose(tag+".form", 2) == 1 {
			p.IP = p.IP.To16()
		}
		w.begin(tt[sym.Choose(tag+".type", 2)], p, "127.0.0.1:7542", string([]byte{c}))
	}
	c17close()
}

func Verif_C16_three() {
	sym.Bound("three transfers started one after the other, each a get, take or (thorough) any of seven types, to one of three peers (one that cannot be dialled), of a file named by any letter")
	sardir()
	Transfers = nil
	w := &c16world{have: []string{"a", "b"}}
	n := 2
	if sym.Thorough() {
		n = len(c16types)
	}
	w.start("t1", n)
	w.start("t2", n)
	w.start("t3", n)
	c17close()
}

func Verif_C16_again() {
	sym.Bound("two transfers started, the first removed, and a third started; each a put, give, putblind or delete to one of three peers (one that cannot be dialled) of a file named by any letter")
	sardir()
	Transfers = nil
	w := &c16world{have: []string{"a", "b"}}
	types := c16types
	c16types = []string{"put", "delete", "give", "putblind"}
	defer func() { c16types = types }()
	n := 2
	if sym.Thorough() {
		n = 4
	}
	w.start("t1", n)
	w.start("t2", n)
	if len(w.want) > 0 && len(Transfers) > 0 {
		if p := Match(w.want[0].peer, w.want[0].session); p != nil {
			sym.Assert(p.Remove() == nil, "a transfer in progress can be removed")
			w.want = w.want[1:]
			w.check()
			w.start("t3", n)
		} else {
			sym.Fail("a transfer started is found in the table")
		}
	}
	c17close()
}

func Verif_C16_step() {
	n := 4
	if sym.Thorough() {
		n = 7
	}
	sym.Bound("a table of up to 4 (thorough: 7) transfers of gets, puts and deletes to one of two peers of files named by any letter, then one started of any of seven types to one of three peers (one that cannot be dialled) of a file named by any letter, with two local files there")
	sardir()
	Transfers = nil
	w := &c16world{have: []string{"a", "b"}}
	k := sym.Choose("transfers", n+1)
	for i := 0; i < k; i++ {
		tag := "o" + string(rune('0'+i))
		c := sym.U8(tag + ".name")
		sym.Assume(sym.And(c >= 'a', c <= 'z'))
		name := string([]byte{c})
		p := sym.Choose(tag+".peer", 2)
		tt := []string{"delete", "put", "get"}[(i+p)%3]
		peer, ps := c16peer(p)
		for _, o := range w.want {
			sym.Assume(sym.Not(sym.And(o.peer == ps, sym.EqStr(o.name, name))))
		}
		c17dial(peer, tt, name, uint32(i+1))
		w.want = append(w.want, c16tran{tt, ps, name, uint32(i + 1)})
	}
	w.start("t", len(c16types))
	c17close()
}

// c17dial puts a transfer in the table.
func c17dial(peer *net.UDPAddr, ttype, name string, session uint32) {
	conn, err := net.DialUDP("udp", nil, peer)
	if err != nil {
		panic(err)
	}
	Transfers = append(Transfers, Transfer{Direction: Initiator, Session: session, Peer: peer, Ttype: ttype, Filename: name, Conn: conn, Cliflags: sarflags.Cliflag})
}
