package sarwin

import (
	"net"

	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

// What the harness knows of a transfer in progress.
type c17tran struct {
	dir     bool
	session uint32
	peer    int
	name    string
}

var c17peers = []struct {
	ip   net.IP
	port int
	s    string
}{
	{net.IP{127, 0, 0, 1}, 7542, "127.0.0.1:7542"},
	{net.IP{127, 0, 0, 1}, 17542, "127.0.0.1:17542"},
	{net.IP{127, 0, 0, 11}, 7542, "127.0.0.11:7542"},
}

func c17peer(k int) *net.UDPAddr {
	return &net.UDPAddr{IP: c17peers[k].ip, Port: c17peers[k].port}
}

// c17table puts up to max transfers in the table, no two with the same
// direction, session and peer; each has a connection dialled to its peer or none.
func c17table(max int, conns bool) []c17tran {
	Transfers = nil
	n := sym.Choose("transfers", max+1)
	var ts []c17tran
	names := []string{"a", "b", "c", "d"}
	for i := 0; i < n; i++ {
		t := c17tran{dir: sym.Bool("dir." + names[i]), session: sym.U32("session." + names[i]), peer: sym.Choose("peer."+names[i], len(c17peers)), name: names[i]}
		for _, o := range ts {
			if o.peer == t.peer {
				sym.Assume(sym.Not(sym.And(o.dir == t.dir, o.session == t.session)))
			}
		}
		tr := Transfer{Direction: t.dir, Session: t.session, Peer: c17peer(t.peer), Filename: t.name, Ttype: "get"}
		if conns && sym.Choose("conn."+names[i], 2) == 1 {
			c, err := net.DialUDP("udp", nil, tr.Peer)
			sym.Assume(err == nil)
			tr.Conn = c
		}
		Transfers = append(Transfers, tr)
		ts = append(ts, t)
	}
	return ts
}

// c17same: the table holds exactly these transfers.
func c17same(ts []c17tran) {
	sym.Assert(len(Transfers) == len(ts), "no transfer is added or lost")
	for k, t := range ts {
		if k < len(Transfers) {
			sym.Assert(Transfers[k].Filename == t.name, "the other transfers stay in order")
		}
		n := 0
		ok := false
		for i := range Transfers {
			if Transfers[i].Filename == t.name {
				n++
				ok = sym.And(Transfers[i].Direction == t.dir, Transfers[i].Session == t.session, Transfers[i].Peer.String() == c17peers[t.peer].s)
			}
		}
		sym.Assert(n == 1, "every other transfer stays in place, once")
		sym.Assert(ok, "every other transfer keeps its direction, session and peer")
	}
}

func c17close() {
	for i := range Transfers {
		if Transfers[i].Conn != nil {
			Transfers[i].Conn.Close()
		}
	}
}

func c17max() int {
	if sym.Thorough() {
		return 4
	}
	return 3
}

func Verif_C17_lookup() {
	sym.Bound("0 to 3 (thorough: 4) transfers in progress with any direction and session and one of three peers, with and without a connection; any direction and session looked up for each of the peers")
	ts := c17table(c17max(), true)
	defer c17close()
	dir, session, peer := sym.Bool("dir"), sym.U32("session"), sym.Choose("peer", len(c17peers))
	p := Lookup(dir, session, c17peers[peer].s)
	exists := false
	for _, t := range ts {
		if t.peer == peer {
			exists = sym.Or(exists, sym.And(t.dir == dir, t.session == session))
		}
	}
	sym.Assert((p != nil) == exists, "a transfer is found exactly when it is in progress")
	if p != nil {
		sym.Assert(sym.And(p.Direction == dir, p.Session == session, p.Peer.String() == c17peers[peer].s), "the transfer found is the one looked up")
		p.Progress = 4711
		n := 0
		for i := range Transfers {
			if Transfers[i].Progress == 4711 {
				n++
				sym.Assert(Transfers[i].Filename == p.Filename, "the lookup gives access to the transfer itself")
			}
		}
		sym.Assert(n == 1, "the lookup gives access to the transfer itself")
		sym.Cover("found")
	} else {
		sym.Cover("not found")
	}
	c17same(ts)
}

func Verif_C17_match() {
	sym.Bound("0 to 4 (thorough: 5) transfers in progress with any direction and session and one of three peers; any session matched for each of the peers")
	ts := c17table(c17max()+1, false)
	defer c17close()
	session, peer := sym.U32("session"), sym.Choose("peer", len(c17peers))
	p := Match(c17peers[peer].s, session)
	exists := false
	for _, t := range ts {
		if t.peer == peer {
			exists = sym.Or(exists, t.session == session)
		}
	}
	sym.Assert((p != nil) == exists, "a transfer is matched exactly when it is in progress")
	if p != nil {
		sym.Assert(sym.And(p.Session == session, p.Peer.String() == c17peers[peer].s), "the transfer matched is the one asked for")
		p.Progress = 4711
		n := 0
		for i := range Transfers {
			if Transfers[i].Progress == 4711 {
				n++
			}
		}
		sym.Assert(n == 1, "the match gives access to the transfer itself")
		sym.Cover("matched")
	} else {
		sym.Cover("not matched")
	}
	c17same(ts)
}

func Verif_C17_remove() {
	sym.Bound("0 to 4 (thorough: 5) transfers in progress with any direction and session and one of three peers; removed is a transfer with any direction and session and one of the peers, whether in the table or not")
	ts := c17table(c17max()+1, false)
	t := Transfer{Direction: sym.Bool("dir"), Session: sym.U32("session"), Filename: "x"}
	peer := sym.Choose("peer", len(c17peers))
	t.Peer = c17peer(peer)
	err := t.Remove()
	var left []c17tran
	for _, o := range ts {
		if o.peer == peer && o.dir == t.Direction && o.session == t.Session {
			continue
		}
		left = append(left, o)
	}
	sym.Assert((err == nil) == (len(left) < len(ts)), "removing a transfer succeeds exactly when it is in progress")
	c17same(left)
	if err == nil {
		sym.Cover("removed")
		sym.Assert(t.Remove() != nil, "removing a transfer again is an error")
		c17same(left)
	} else {
		sym.Cover("refused")
	}
}

func Verif_C17_removematched() {
	sym.Bound("1 to 4 (thorough: 5) transfers in progress with any direction and session and one of three peers; removed is one that was looked up or matched in the table")
	ts := c17table(c17max()+1, false)
	session, peer := sym.U32("session"), sym.Choose("peer", len(c17peers))
	var p *Transfer
	if sym.Choose("how", 2) == 0 {
		p = Match(c17peers[peer].s, session)
	} else {
		p = Lookup(sym.Bool("dir"), session, c17peers[peer].s)
	}
	if p == nil {
		return
	}
	name := p.Filename
	sym.Assert(p.Remove() == nil, "removing a transfer in progress succeeds")
	var left []c17tran
	for _, o := range ts {
		if o.name != name {
			left = append(left, o)
		}
	}
	c17same(left)
	sym.Cover("removed")
}

func Verif_C17_rmtran() {
	sym.Bound("0 to 3 (thorough: 4) transfers in progress with any direction and session and one of three peers; the command to remove one, with one of 11 words as its session (the smallest, the largest, too large, no number, ...) and one of four as its address, with or without a type, or an argument too few or too many")
	ts := c17table(c17max(), false)
	g := c18gui()
	words := []struct {
		s  string
		ok bool
		v  uint32
	}{{"0", true, 0}, {"7", true, 7}, {"2147483647", true, 1<<31 - 1}, {"2147483648", true, 1 << 31}, {"4294967295", true, 1<<32 - 1},
		{"4294967296", false, 0}, {"18446744073709551616", false, 0}, {"-1", false, 0}, {"x", false, 0}, {"1e3", false, 0}, {"7x", false, 0}}
	w := words[sym.Choose("session", len(words))]
	peer := sym.Choose("peer", len(c17peers)+1)
	addr := "127.0.0.1"
	if peer < len(c17peers) {
		addr = c17peers[peer].s
	}
	line := "rmtran get " + addr + " " + w.s
	ok := w.ok
	if k := sym.Choose("arguments", 4); k == 3 {
		line = "rmtran " + addr + " " + w.s // as its usage says
	} else if k == 1 {
		line, ok = "rmtran get "+addr, false
	} else if k == 2 {
		line, ok = line+" "+w.s, false
	}
	Run(g, line)
	sym.WaitIdle()
	exists := false
	for _, t := range ts {
		if t.peer == peer {
			exists = sym.Or(exists, sym.And(ok, t.session == w.v))
		}
	}
	if !exists {
		c17same(ts)
		sym.Cover("nothing removed")
		return
	}
	sym.Cover("removed")
	sym.Assert(len(Transfers) == len(ts)-1, "a transfer in progress is removed, and one only")
	var left []c17tran
	gone := 0
	for _, t := range ts {
		here := false
		for i := range Transfers {
			here = here || Transfers[i].Filename == t.name
		}
		if here {
			left = append(left, t)
			continue
		}
		gone++
		sym.Assert(t.peer == peer && t.session == w.v, "the transfer removed is the one named")
	}
	sym.Assert(gone == 1, "a transfer in progress is removed, and one only")
	c17same(left)
}
