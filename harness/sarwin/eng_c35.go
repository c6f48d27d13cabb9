package sarwin

import (
	"net"
	"syscall"

	"github.com/charlesetsmith/saratoga/sarflags"
	"github.com/charlesetsmith/saratoga/zzverif/stub"
	"github.com/charlesetsmith/saratoga/zzverif/sym"
)

// A transfer that fails half way leaves nothing open.
func Verif_C35_faults() {
	sym.Bound("a transfer of any of seven types, of a file that is there or not, where any one of the first six operations on the local files fails; then another, and all removed")
	c35begin()
	g := c18gui()
	at, n := sym.Choose("at", 6), 0
	stub.Before = func(op, path string) error {
		n++
		if n == at+1 {
			sym.Cover("an operation fails")
			return syscall.EIO
		}
		return nil
	}
	Run(g, c33types[sym.Choose("type", len(c33types))]+" 127.0.0.1 "+[]string{"a", "n"}[sym.Choose("name", 2)])
	sym.WaitIdle()
	stub.Before = nil
	c35open()
	Run(g, "put 127.0.0.1 b")
	sym.WaitIdle()
	c35open()
	c35end(g, false)
}

// Beacons that cannot all be sent leave nothing open.
func Verif_C35_beaconfault() {
	sym.Bound("1 to 3 beacons to one or two addresses, any one of which cannot be sent; then a beacon to one of them")
	c35begin()
	g := c18gui()
	sarflags.Cliflag.Timeout.Binterval = 0
	sarflags.Cliflag.Bcount = uint(1 + sym.Choose("count", 3))
	at, n := sym.Choose("at", 6), 0
	stub.SendFails = func(to *net.UDPAddr) error {
		n++
		if n == at+1 {
			sym.Cover("a beacon cannot be sent")
			return syscall.ECONNREFUSED
		}
		return nil
	}
	line := "beacon 127.0.0.1"
	if sym.Bool("two") {
		line += " 10.0.0.7"
	}
	Run(g, line)
	sym.WaitIdle()
	c35open()
	stub.SendFails = nil
	Run(g, "beacon 127.0.0.1")
	sym.WaitIdle()
	c35open()
	c35end(g, false)
}
