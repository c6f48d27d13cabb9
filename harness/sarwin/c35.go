package sarwin

import (
	"net"
	"strconv"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/fds"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
	"github.com/jroimartin/gocui"
)

var c35files, c35socks int

func c35begin() {
	sardir()
	Transfers = nil
	if c, err := net.DialUDP("udp", nil, vaddr(7542)); err == nil {
		c.Close() // what the first socket needs is open from now on
	}
	c35files, c35socks = fds.Files(), fds.Socks()
}

// c35open: what is open is what the transfers in progress have.
func c35open() {
	f, s := 0, 0
	for i := range Transfers {
		if Transfers[i].Fp != nil {
			f++
		}
		if Transfers[i].Conn != nil {
			s++
		}
	}
	sym.Assert(fds.Files()-c35files == f, "the files open are those of the transfers in progress")
	sym.Assert(fds.Socks()-c35socks == s, "the sockets open are those of the transfers in progress")
}

// c35line: a command line that starts a transfer, or cannot.
func c35line(tag string) string {
	tt := c33types[sym.Choose(tag+".type", len(c33types))]
	peer := []string{"127.0.0.1", "fe80::1"}[sym.Choose(tag+".peer", 2)]
	return tt + " " + peer + " " + []string{"a", "n", "no/n"}[sym.Choose(tag+".name", 3)]
}

// c35end removes all transfers, as the usage of rmtran says.
func c35end(g *gocui.Gui, last bool) {
	for len(Transfers) > 0 {
		n := len(Transfers)
		i := 0
		if last {
			i = n - 1
		}
		t := Transfers[i]
		Run(g, "rmtran "+t.Peer.String()+" "+strconv.Itoa(int(t.Session)))
		sym.WaitIdle()
		sym.Assert(len(Transfers) == n-1, "rmtran removes a transfer as its usage says")
		if len(Transfers) != n-1 {
			return
		}
		c35open()
	}
	sym.Assert(fds.Files() == c35files && fds.Socks() == c35socks, "nothing is left open when there are no transfers")
	sym.Cover("all removed")
}

// What transfers have open is closed when they are removed, or could not be started.
func Verif_C35_transfers() {
	n := 2
	if sym.Thorough() {
		n = 3
	}
	sym.Bound("1 or 2 (thorough: 3) transfers, each of any of seven types, to a peer or one that cannot be reached, of a file that is there, one that is not, or one in a directory that is not; then all removed, the first or the last first")
	c35begin()
	g := c18gui()
	n = 1 + sym.Choose("n", n)
	for i := 0; i < n; i++ {
		Run(g, c35line("t"+strconv.Itoa(i)))
		sym.WaitIdle()
		c35open()
	}
	c35end(g, sym.Bool("last"))
}

// Beacons leave nothing open.
func Verif_C35_beacon() {
	sym.Bound("0 to 3 beacons to one or two addresses, one of them perhaps one that cannot be reached or is none, and a transfer or none")
	c35begin()
	g := c18gui()
	if sym.Bool("transfer") {
		Run(g, "put 127.0.0.1 a")
		sym.WaitIdle()
		sym.Assert(len(Transfers) == 1, "a transfer is started")
	}
	sarflags.Cliflag.Timeout.Binterval = 0
	sarflags.Cliflag.Bcount = uint(sym.Choose("count", 4))
	to := []string{"127.0.0.1", "fe80::1", "::1", "x"}
	line := "beacon " + to[sym.Choose("to", len(to))]
	if sym.Bool("two") {
		line += " " + to[sym.Choose("and", len(to))]
	}
	Run(g, line)
	sym.WaitIdle()
	c35open()
	c35end(g, false)
}
