package sarwin

import (
	"net"

	"github.com/charlesetsmith/saratoga/beacon"
	"github.com/charlesetsmith/saratoga/request"
	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/charlesetsmith/saratoga/zzverif/term"
	"github.com/jroimartin/gocui"
	"github.com/nsf/termbox-go"
)

var c31lines = []string{
	"beacon 10.0.0.7", "beacon off", "beacon", "beacon v4", "bcount 7", "checksum md5", "descriptor d32", "files", "freespace no", "get 10.0.0.7 x",
	"interval 9", "peers", "put 10.0.0.7 a", "reqtstamp no", "rmtran delete 10.0.0.7:7542 4712",
	"rxwilling off", "stream yes", "timeout status 9", "timestamp 32", "timezone utc", "txwilling capable", "usage",
	"bcount", "checksum", "descriptor", "freespace", "interval", "timeout", "timestamp", "timezone", "history", "give 10.0.0.7 b", "help", "tran", "cancel x", "clear msg",
}

func c31type(g *gocui.Gui, line string) {
	v, err := g.View("cmd")
	if err != nil {
		panic(err)
	}
	stub.ViewLine = "saratoga[0]:" + line
	GetLine(g, v)
}

func Verif_C31_commands() {
	sym.Bound("two commands of a list of 36 at the same time, or one and a beacon that arrives, with one transfer and one peer before; every interleaving with one (thorough: two) preemptions at the synchronisation")
	sym.Clock(1700000000)
	stub.SetStatfs(4096, 1<<30)
	sardir()
	Transfers = nil
	beacon.Peers = nil
	g := c18gui()
	stub.RunDetached = true
	c31type(g, "delete 10.0.0.7 f")
	var b beacon.Beacon
	if err := b.New(sarflags.Setglobal("beacon", sarflags.Cliflag), &beacon.Binfo{Eid: "node-7"}); err != nil {
		panic(err)
	}
	beacon.NewPeer(&b, &net.UDPAddr{IP: net.IP{10, 0, 0, 7}, Port: 40000})
	sym.WaitIdle()
	i := sym.Choose("first", len(c31lines))
	j := sym.Choose("second", len(c31lines)+1)
	sym.Assume(i <= j)
	n := 1
	if sym.Thorough() {
		n = 2
	}
	sym.Races(true)
	sym.Preempt(n)
	c31type(g, c31lines[i])
	if j == len(c31lines) {
		go beacon.NewPeer(&b, &net.UDPAddr{IP: net.IP{10, 0, 0, 8}, Port: 40000})
	} else {
		c31type(g, c31lines[j])
	}
	sym.WaitIdle()
	sym.Preempt(0)
	sym.Cover("both done")
}

// Verif_C31_transfers: what frames and commands do with the list of transfers.
func Verif_C31_transfers() {
	sym.Bound("two of starting, looking up (in both ways), listing and removing a transfer and answering a request for one at the same time, with no transfer or one before; every interleaving with one (thorough: two) preemptions at the synchronisation")
	sym.Clock(1700000000)
	sardir()
	Transfers = nil
	g := c18gui()
	stub.RunDetached = true
	peer := &net.UDPAddr{IP: net.IP{10, 0, 0, 7}, Port: 7542}
	var tr *Transfer
	if sym.Choose("before", 2) == 1 {
		tr, _ = NewInitiator(g, "delete", peer, "f", sarflags.Cliflag)
	}
	var req request.Request
	if req.New("descriptor=d32,reqtype=put,fileordir=file", &request.Rinfo{Session: 5, Fname: "n"}) != nil {
		req.New("descriptor=d32,reqtype=put", &request.Rinfo{Session: 5, Fname: "n"})
	}
	op := func(k int) {
		switch k {
		case 0:
			NewInitiator(g, "delete", peer, "g", sarflags.Cliflag)
		case 1:
			Lookup(Initiator, 4712, peer.String())
		case 2:
			Match(peer.String(), 4712)
		case 3:
			Info(g, "")
		case 4:
			Info(g, "delete")
		case 5:
			NewResponder(g, req, peer.String())
		case 6:
			if tr != nil {
				tr.Remove()
			}
		}
	}
	i, j := sym.Choose("first", 7), sym.Choose("second", 7)
	n := 1
	if sym.Thorough() {
		n = 2
	}
	sym.Races(true)
	sym.Preempt(n)
	go op(i)
	go op(j)
	sym.WaitIdle()
	sym.Preempt(0)
	sym.Cover("both done")
}

// Verif_C31_screen: what a command does to the windows, and the main loop with the real gocui.
func Verif_C31_screen() {
	sym.Bound("each of 10 commands that show, clear or print, typed at a real gocui, whose own memory counts; then ctrl-space and a digit")
	sym.Clock(1700000000)
	sardir()
	Transfers = nil
	beacon.Peers = nil
	term.X, term.Y = 40, 16
	lines := []string{"clear", "clear msg", "clear err", "clear packet msg", "files", "peers", "usage", "timeout", "nosuch", "exit ?"}
	text := lines[sym.Choose("line", len(lines))]
	i := 0
	sym.AllowExit(true)
	sym.Races(true)
	c32run(func(g *gocui.Gui) (termbox.Event, bool) {
		i++
		switch {
		case i <= len(text):
			return c32rune(rune(text[i-1])), true
		case i == len(text)+1:
			return c32key(gocui.KeyEnter), true
		case i == len(text)+2:
			return c32key(gocui.KeyCtrlSpace), true
		case i == len(text)+3:
			return c32rune('1'), true
		}
		return termbox.Event{}, false
	})
	sym.Cover("both done")
}
